"""Value-flow models of the library functions the analysed code calls.

Each model states the library function's contract as terms/partitions; an
unmodelled function is an uninterpreted application of its arguments (and
havocs what it can reach through `&mut`)."""
import re
from .terms import *
from . import terms as TM
from . import engine as E

ARGLESS = ('std::env::args', 'std::env::args_os', 'std::iter::empty')
LOCAL_ITER = re.compile(r'^<silverfox::.* as std::iter::Iterator>::next$')
DERIVED_ID = re.compile(r'^<silverfox::[\w:]+ as std::clone::Clone>::clone$')
DESCEND = re.compile(
    r'^(std|core)::(option|result|convert|bool|cmp|mem|ops::(Try|FromResidual|ControlFlow))\b'
    r'|^std::ops::Residual|^core::bool|^std::ops::function|::<impl bool>::|^core::str::<impl str>::parse'
    r'|^std::cmp::(PartialEq|PartialOrd|Ord|Eq)\b|^std::ops::(Try|FromResidual)::|^core::cmp::|^std::convert::'
    r'|^std::clone::Clone|^std::borrow::|^std::default::')
EFFECT = re.compile(r'^std::(fs|env::(set_\w+|remove_\w+|current_dir|home_dir)|process|net|os|io|thread|sync)\b|_print|_eprint|OpenOptions|File::'
                    r'|^libc::|^(tempfile|dirs)')


def noev(name):
    return False


PANIC = re.compile(r'^(core|std)::panicking::|::(unwrap|expect)_failed$|panic_(fmt|display|explicit|str)|unreachable_display'
                   r'|slice_.*_fail|begin_panic|panic_const|panic_bounds|const_panic')

IDENT = re.compile(
    r'^std::ops::(Deref::deref|DerefMut::deref_mut)$|^std::clone::Clone::clone$|^std::borrow::(ToOwned::to_owned|Borrow::borrow|BorrowMut::borrow_mut)$'
    r'|^std::convert::(AsRef::as_ref|AsMut::as_mut)$|^std::string::String::(as_str|as_mut_str|into_boxed_str|as_bytes|into_bytes)$'
    r'|^std::hint::must_use$|^std::path::Path::(to_path_buf|as_os_str|new|as_path|display|to_str_lossy)$|^std::path::PathBuf::as_path$'
    r'|^core::str::<impl str>::(as_bytes|as_str|to_owned)$|^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$'
    r'|^std::slice::<impl \[T\]>::(to_vec|into_vec)$|^std::boxed::Box::<T>::new$|^std::iter::IntoIterator::into_iter$'
    r'|^std::option::Option::<(&T|&mut T)>::(cloned|copied)$|^std::str::<impl str>::(into_string|to_owned)$|^std::rc::|^chrono::DateTime::<Tz>::(date_naive|naive_local)$|^chrono::NaiveDateTime::date$'
    r'|^std::option::Option::<T>::(as_ref|as_deref)$|^std::result::Result::<T, E>::(as_ref|as_deref)$|^std::borrow::Cow::.*into_owned|::shrink_to_fit$|^std::iter::Iterator::by_ref$')


def app(n, *a):
    return raw('app', n, *a)


# ------------------------------------------------------------------ maps/sets
def has(m, k):
    if m.op in ('emptymap',) or m.op == 'vec' and not m.a:
        return FALSE
    if m.op == 'mput':
        e = Eq(m.a[1], k)
        if e is TRUE:
            return TRUE
        if e is FALSE:
            return has(m.a[0], k)
        return raw('has', m, k)
    if m.op == 'keys':
        return has(m.a[0], k)
    if k.op == 'elem':
        l = k.a[0]
        while l.op in ('sorted', 'reversed', 'from', 'list') and isinstance(l.a[0], T):
            l = l.a[0]
        if l.op == 'keys' and l.a[0] is m:
            return TRUE
    if m.op in ('list', 'setof', 'mapof') and isinstance(m.a[0], T):
        x = m.a[0]
        if m.op == 'mapof' and x.op == 'entries':
            return has(x.a[0], k)
        if x.op == 'keys':
            return has(x.a[0], k)
        if x.op in ('list', 'setof'):
            return has(x, k)
        if m.op == 'setof':
            return has(x, k)
    return raw('has', m, k)


def map_at(m, k):
    if m.op == 'mapof' and m.a[0].op == 'entries':
        return map_at(m.a[0].a[0], k)
    if m.op == 'mput':
        e = Eq(m.a[1], k)
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return map_at(m.a[0], k)
    return raw('at', m, k)


def mput(m, k, v):
    if m.op == 'mput' and m.a[1] is k:
        m = m.a[0]
    return raw('mput', m, k, v)


TM.REBUILD['has'] = has
TM.REBUILD['at'] = map_at
TM.REBUILD['mput'] = mput


def concat(a, b):
    if a.op == 'vec' and not a.a:
        return b
    if b.op == 'vec' and not b.a:
        return a
    if a.op == 'vec' and b.op == 'vec':
        return raw('vec', *(a.a + b.a))
    return raw('concat', a, b)


def push(v, x):
    if v.op == 'vec':
        return raw('vec', *(v.a + (x,)))
    return raw('push', v, x)


TM.REBUILD['push'] = push
TM.REBUILD['concat'] = concat


def chr_(c):
    if c.op == 'int' and 0 <= c.a[0] < 0x110000:
        return Str(chr(c.a[0]))
    return raw('chr', c)


TM.REBUILD['chr'] = chr_


def strip(s):
    """A string with leading/trailing trimming removed (for token-wise reads)."""
    while s.op == 'app' and s.a[0] in ('trim', 'trim_start', 'trim_end'):
        s = s.a[1]
    return s


def trim(which, s):
    if s.op == 'str':
        x = s.a[0]
        return Str(x.strip() if which == 'trim' else x.lstrip() if which == 'trim_start' else x.rstrip())
    if s.op == 'app' and s.a[0] == 'trim':
        return s
    if s.op == 'app' and s.a[0] == which:
        return s
    if s.op == 'app' and s.a[0] in ('trim_start', 'trim_end'):
        return app('trim', s.a[1])
    return app(which, s)


# ------------------------------------------------------------------ iterators
def keys_of(m):
    """keys(m): unchanged by writing to keys that are there already."""
    while m.op == 'mput' and m.a[1].op == 'elem' and m.a[1].a[0] is keys_of(m.a[0]):
        m = m.a[0]
    return raw('keys', m)


TM.REBUILD['keys'] = keys_of


def it_base(src, start=0):
    return raw('it', src, start)


def as_iter(eng, s, t, ty=None, name=''):
    """IntoIterator on a term."""
    if t.op == 'ref':
        v = eng.load(s, t.a[0], t.a[1])
        if E.is_iter(v):
            return t
        return raw('itm', t, 0)
    t = eng.val(s, t)
    if E.is_iter(t):
        return t
    if t.op == 'agg' and t.a[0] == 'std::ops::Range':
        return raw('irange', t.a[2], t.a[3])
    if t.op == 'agg' and t.a[0] == OPT:
        return raw('it', raw('vec', *t.a[2:]), 0)
    return it_list(t)


E.ITER.add('ilam')


def it_list(t):
    m = pure_map(t)
    return raw('ilam', *m, t) if m is not None else it_base(t)


def pure_map(t):
    """A list with exactly one element for each element of another: (its iterator, depth, the generic element)."""
    if t.op != 'loopval':
        return None
    lp = E.LOOPS[t.a[0].a[0]]
    init = dict(lp.inits).get(t.a[1])
    if lp.it is None or lp.it.op not in ('it', 'imap') or init is None or init.op != 'vec' or init.a or len(lp.parts) != 1:
        return None
    src = lp.it
    while src.op == 'imap':
        src = src.a[0]
    if src.op != 'it' or isinstance(src.a[1], T) or src.a[1] != 0:
        return None
    f, u, ev = lp.parts[0]
    x = dict(u).get(t.a[1])
    phi = raw('phi', lp.depth, t.a[1])
    if x is None or x.op != 'push' or x.a[0] is not phi or any(not (isinstance(k, T) and k.op == 'more') for k, _ in f):
        return None
    x = x.a[1]
    if contains(x, lambda y: y.op in ('phi', 'idx', 'seg', 'ref') and (y.op == 'ref' or y.a[0] == lp.depth)):
        return None
    return src, lp.depth, x


def at_k(x, depth, k):
    if k.op == 'k' and k.a == (depth,):
        return x
    memo = {}
    return subst(x, E.deep_subst(depth, lambda y: k if y.op == 'k' and y.a[0] == depth else None, memo), memo)


def step(eng, it, s, ctx):
    """One `next` -> [(state, kind, item, newit)], kind in some/none/skip."""
    o = it.op
    if o == 'drive':
        d = it.a[1]
        z = it.a[0]
        while isinstance(z, T) and z.op in ('ifilter', 'imap', 'ifmap', 'ienum', 'icloned', 'iinspect', 'ipeek', 'irev',
                                            'drive', 'itakew', 'imapw', 'iskipw', 'iscan', 'ilam'):
            z = z.a[0]
        if isinstance(z, T) and z.op == 'iempty':
            return [(s.copy(), 'none', None, it)]
        j = it.a[2] if len(it.a) > 2 else 0      # elements already taken in this iteration
        out = []
        m = raw('more', d, *([j] if j else []))
        n = s.copy()
        if E.assume_val(n, m, 0):
            out.append((n, 'none', None, it))
        y = s.copy()
        if E.assume_val(y, m, 1):
            old = KJ[0]
            KJ[0] = (j,) if j else ()
            try:
                r = gstep(eng, it.a[0], d, y, ctx)
            finally:
                KJ[0] = old
            for st, k, x in r:
                if k == 'skip' and j:
                    raise E.Budget('filtered element taken inside an iteration')
                out.append((st, k, x, raw('drive', it.a[0], d, j + 1) if k == 'some' else it))
        return out
    if o == 'rest':
        return step(eng, resume(it), s, ctx)
    if o in ('it', 'itm'):
        src, n = it.a
        nt = Int(n) if not isinstance(n, T) else n
        if o == 'itm':
            sv = eng.load(s, src.a[0], src.a[1])
        else:
            sv = src
        c = Lt(nt, E.length(sv))
        out = []
        for st, v in eng.split_bool(s, c):
            if v:
                x = elem_at(sv, nt) if o == 'it' else raw('ref', src.a[0], src.a[1] + (('e', nt),))
                nn = n + 1 if not isinstance(n, T) else add(n, Int(1))
                out.append((st, 'some', x, raw(o, src, nn)))
            else:
                out.append((st, 'none', None, it))
        return out
    if o == 'itmv':
        ref, kind, n = it.a
        nt = Int(n) if not isinstance(n, T) else n
        ks = keys_of(eng.load(s, ref.a[0], ref.a[1]))
        out = []
        for st, v in eng.split_bool(s, Lt(nt, E.length(ks.a[0]))):
            if v:
                key = raw('elem', ks, nt)
                r = raw('ref', ref.a[0], ref.a[1] + (('m', key),))
                nn = n + 1 if not isinstance(n, T) else add(n, Int(1))
                out.append((st, 'some', r if kind == 'v' else Agg('tuple', 0, key, r), raw('itmv', ref, kind, nn)))
            else:
                out.append((st, 'none', None, it))
        return out
    if o == 'irange':
        out = []
        for st, v in eng.split_bool(s, Lt(it.a[0], it.a[1])):
            if v:
                out.append((st, 'some', it.a[0], raw('irange', add(it.a[0], Int(1)), it.a[1])))
            else:
                out.append((st, 'none', None, it))
        return out
    if o == 'irev' and it.a[0].op in ('it', 'itm') and (it.a[0].a[1] == 0 or isinstance(it.a[0].a[1], T) and num(it.a[0].a[1]) == 0):
        inner = it.a[0]
        n = it.a[1] if len(it.a) > 1 else 0      # taken from the back so far
        src = inner.a[0]
        sv = eng.load(s, src.a[0], src.a[1]) if inner.op == 'itm' else src
        out = []
        for st, v in eng.split_bool(s, Lt(Int(n), E.length(sv))):
            if not v:
                out.append((st, 'none', None, it))
            elif inner.op == 'it':
                out.append((st, 'some', elem_at(raw('reversed', list_of(inner)), Int(n)), raw('irev', inner, n + 1)))
            else:
                out.append((st, 'some', raw('ref', src.a[0], src.a[1] + (('e', sub(E.length(sv), Int(n + 1))),)), raw('irev', inner, n + 1)))
        return out
    if o == 'irev' and it.a[0].op == 'ichain' and not mutable(it):
        n = it.a[1] if len(it.a) > 1 else 0
        l = list_of(it.a[0])
        out = []
        for st, v in eng.split_bool(s, Lt(Int(n), E.length(l))):
            out.append((st, 'some', elem_at(raw('reversed', l), Int(n)), raw('irev', it.a[0], n + 1)) if v else (st, 'none', None, it))
        return out
    if o == 'iempty':
        return [(s, 'none', None, it)]
    if o == 'ilam':
        src, depth, x, t = it.a
        if src.op == 'it' and not isinstance(src.a[1], T):
            return [(st, k, at_k(x, depth, Int(src.a[1])) if k == 'some' else None, raw('ilam', n, depth, x, t))
                    for st, k, _, n in step(eng, src, s, ctx)]
        return step(eng, it_base(raw('from', t, src.a[1])), s, ctx)
    if o == 'imap':
        out = []
        for st, k, x, n in step(eng, it.a[0], s, ctx):
            if k != 'some':
                out.append((st, k, x, raw('imap', n, it.a[1])))
            else:
                r = eng.apply(it.a[1], [x], st, ctx)
                for s2, v in (r or []):
                    out.append((s2, 'some', v, raw('imap', n, it.a[1])))
        return out
    if o == 'ienum':
        out = []
        for st, k, x, n in step(eng, it.a[0], s, ctx):
            i = it.a[1]
            out.append((st, k, Agg('tuple', 0, i, x) if k == 'some' else None, raw('ienum', n, add(i, Int(1)))))
        return out
    if o == 'izip':
        out = []
        for st, k, x, n in step(eng, it.a[0], s, ctx):
            if k != 'some':
                out.append((st, k, x, raw('izip', n, it.a[1])))
                continue
            for s2, k2, y, n2 in step(eng, it.a[1], st, ctx):
                out.append((s2, k2, Agg('tuple', 0, x, y) if k2 == 'some' else None, raw('izip', n, n2)))
        return out
    if o == 'ichain':
        out = []
        for st, k, x, n in step(eng, it.a[0], s, ctx):
            if k != 'none':
                out.append((st, k, x, raw('ichain', n, it.a[1])))
                continue
            for s2, k2, y, n2 in step(eng, it.a[1], st, ctx):
                out.append((s2, k2, y, raw('ichain', n, n2)))
        return out
    if o in ('ifilter', 'ifmap', 'ires', 'itakew', 'imapw'):
        out = []
        ex = syn_loop(eng, s, ctx, it, {}, lambda st, x, c: [('exit', 'hit', st, x)])
        for st, v, rest in ex.get('hit', []):
            out.append((st, 'some', v, rest))
        for st, v, rest in ex.get('end', []):
            out.append((st, 'none', None, raw('iempty')))
        return out
    # unknown iterator shape: a base stream of its own elements
    return step(eng, it_base(list_of(it)), s, ctx)


def elem_at(src, n):
    if src.op in ('entries',):
        return Agg('tuple', 0, raw('elem', raw('keys', src.a[0]), n), map_at(src.a[0], raw('elem', raw('keys', src.a[0]), n)))
    if src.op == 'values':
        return map_at(src.a[0], raw('elem', raw('keys', src.a[0]), n))
    if src.op == 'list' and isinstance(src.a[0], T):
        if src.a[0].op in ('entries', 'values', 'keys', 'lines', 'words', 'chars', 'splits', 'records'):
            return elem_at(src.a[0], n)
    if src.op == 'from' and src.a[0].op in ('entries', 'values'):
        return elem_at(src.a[0], raw('off', n, src.a[1]) if not (n.op == 'int' and not isinstance(src.a[1], T)) else Int(n.a[0] + src.a[1]))
    if src.op == 'reversed':
        return elem_at(src.a[0], n) if n.op in ('k', 'hit') else raw('elem', src, n)
    return E.elem_of(src, n)


def resume(it):
    """The iterator left over when loop `lt` was left."""
    base, lt = it.a

    def f(x):
        if x.op in ('it', 'itm'):
            return raw(x.op, x.a[0], raw('after', lt))
        if x.op == 'itmv':
            return raw('itmv', x.a[0], x.a[1], raw('after', lt))
        if x.op == 'irange':
            return raw('irange', add(x.a[0], add(raw('hitpos', lt), Int(1))), x.a[1])
        return None
    return subst(base, f, {})


KJ = [()]


def gstep(eng, it, d, s, ctx):
    """Generic element of a driven iterator -> [(state, kind, item)]"""
    k = raw('k', d, *KJ[0])
    o = it.op
    if o == 'it':
        return [(s, 'some', elem_at(E.it_src(it), k))]
    if o == 'itm':
        ref = it.a[0]
        return [(s, 'some', raw('ref', ref.a[0], ref.a[1] + (('e', k),)))]
    if o == 'itmv':      # values_mut / iter_mut of a map
        ref = it.a[0]
        mv = eng.load(s, ref.a[0], ref.a[1])
        key = raw('elem', keys_of(mv), k)
        r = raw('ref', ref.a[0], ref.a[1] + (('m', key),))
        return [(s, 'some', r if it.a[1] == 'v' else Agg('tuple', 0, key, r))]
    if o == 'rest':
        return gstep(eng, resume(it), d, s, ctx)
    if o == 'ilam':
        src, depth, x, t = it.a
        if src.op == 'it' and src.a[1] == 0 and not isinstance(src.a[1], T):
            return [(s, 'some', at_k(x, depth, k))]
        return [(s, 'some', raw('elem', raw('from', t, src.a[1]) if src.op == 'it' else raw('list', it), k))]
    if o == 'irange':
        x = raw('idx', d, *KJ[0])
        E._isint.add(x)
        x = add(it.a[0], x)
        E.assume(s, Lt(x, it.a[1]), 1)
        return [(s, 'some', x)]
    if o == 'irev':
        if len(it.a) > 1 and it.a[1]:
            raise E.Budget('rest of a reversed iterator')
        return gstep(eng, it.a[0], d, s, ctx)
    if o == 'imap':
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
            else:
                for s2, v in (eng.apply(it.a[1], [x], st, ctx) or []):
                    out.append((s2, 'some', v))
        return out
    if o == 'ifilter':
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
                continue
            for s2, v in (eng.apply(it.a[1], [x], st, ctx) or []):
                for s3, b in eng.split_bool(s2, eng.val(s2, v)):
                    out.append((s3, 'some' if b else 'skip', x))
        return out
    if o == 'ifmap':
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
                continue
            for s2, v in (eng.apply(it.a[1], [x], st, ctx) or []):
                for s3, b, y in split_opt(eng, s2, v):
                    out.append((s3, 'some' if b else 'skip', y))
        return out
    if o in ('itakew', 'imapw'):      # ends at the first element the predicate refuses
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
                continue
            for s2, v in (eng.apply(it.a[1], [x], st, ctx) or []):
                if o == 'itakew':
                    for s3, b in eng.split_bool(s2, eng.val(s2, v)):
                        out.append((s3, 'some' if b else 'none', x))
                else:
                    for s3, b, y in split_opt(eng, s2, v):
                        out.append((s3, 'some' if b else 'none', y))
        return out
    if o == 'ires':      # flattened Results: errors are passed over
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
                continue
            for s3, b, y in split_res(eng, st, x):
                out.append((s3, 'skip' if b else 'some', y))
        return out
    if o == 'ienum':
        i = raw('idx', d)
        return [(st, kd, Agg('tuple', 0, add(it.a[1], i), x) if kd == 'some' else x) for st, kd, x in gstep(eng, it.a[0], d, s, ctx)]
    if o == 'izip':
        out = []
        for st, kd, x in gstep(eng, it.a[0], d, s, ctx):
            if kd != 'some':
                out.append((st, kd, x))
                continue
            for s2, k2, y in gstep(eng, it.a[1], d, st, ctx):
                out.append((s2, k2, Agg('tuple', 0, x, y)))
        return out
    if o == 'ichain':
        a, b = it.a
        if mutable(a) or mutable(b):
            out = []
            seg = raw('seg', d)
            E.DOM[seg] = frozenset((0, 1))
            for i, part in enumerate((a, b)):
                st = s.copy()
                if E.assume_val(st, seg, i):
                    out.extend(gstep(eng, part, d, st, ctx))
            return out
        return [(s, 'some', raw('elem', concat(list_of(a), list_of(b)), k))]
    if o == 'iflat':
        return [(s, 'some', raw('elem', raw('list', it), k))]
    return [(s, 'some', raw('elem', raw('list', it), k))]


def mutable(it):
    return contains(it, lambda x: x.op in ('itm', 'itmv'))


E.ITER.add('itmv')


def list_of(it):
    o = it.op
    if o == 'it':
        return E.it_src(it)
    if o == 'irev':
        x = raw('reversed', list_of(it.a[0]))
        return raw('from', x, it.a[1]) if len(it.a) > 1 and it.a[1] else x
    if o == 'ichain':
        return concat(list_of(it.a[0]), list_of(it.a[1]))
    if o == 'ilam':
        return it.a[3] if it.a[0].op == 'it' and it.a[0].a[1] == 0 else raw('from', it.a[3], it.a[0].a[1])
    return raw('list', it)


E.list_of = list_of


def split_opt(eng, s, v):
    """Partition on an Option value -> [(state, 0/1, payload)]"""
    v = eng.val(s, v)
    d = discr(v)
    if d.op == 'int':
        return [(s, d.a[0], v.a[2] if d.a[0] else None)]
    E.DOM.setdefault(d, frozenset((0, 1)))
    out = []
    for c in (1, 0):
        st = s.copy()
        if E.assume_val(st, d, c):
            out.append((st, c, raw('fld', v, 'Some.0') if c else None))
    return out


def split_res(eng, s, v):
    v = eng.val(s, v)
    d = discr(v)
    if d.op == 'int':
        return [(s, d.a[0], v.a[2])]
    E.DOM.setdefault(d, frozenset((0, 1)))
    out = []
    for c in (0, 1):
        st = s.copy()
        if E.assume_val(st, d, c):
            out.append((st, c, raw('fld', v, 'Err.0' if c else 'Ok.0')))
    return out


def syn_loop(eng, s, ctx, it, accs, body):
    """Synthetic `for x in it` loop.  body(state, item, ctx) yields
    ('back', state) or ('exit', tag, state, value).
    -> {tag: [(state, value, rest iterator)]}"""
    depth = ctx.loops
    c2 = E.Ctx(ctx.stack, depth + 1, ctx.line)
    ic = ('syn', depth, len(ctx.stack))
    vc = ('synv', depth, len(ctx.stack))
    s = s.copy()
    s.mem[ic] = it if E.literal_it(it) else raw('drive', it, depth) if it.op != 'drive' else raw('drive', it.a[0], depth)
    for n, v in accs.items():
        s.mem[('acc', depth, n)] = v
    s.mem[vc] = UNIT

    def b(h):
        backs, exits = [], {}
        h = h.copy()
        h.ev = ()
        for st, k, x, n in step(eng, h.mem[ic], h, c2):
            st.mem[ic] = n
            if k == 'skip':
                backs.append(st)
            elif k == 'none':
                exits.setdefault('end', []).append(st)
            else:
                for r in body(st, x, c2):
                    if r[0] == 'back':
                        backs.append(r[1])
                    else:
                        r[2].mem[vc] = r[3] if r[3] is not None else UNIT
                        exits.setdefault(r[1], []).append(r[2])
        return backs, exits
    res = eng.solve_loop(s, b, depth, where=ctx.line)
    out = {}
    for tag, sts in res.items():
        for st in sts:
            v = st.mem.pop(vc)
            rest = st.mem.pop(ic)
            out.setdefault(tag, []).append((st, v, rest))
    return out


def popacc(st, depth, n):
    return st.mem.pop(('acc', depth, n))


def bool_exits(eng, st, v, ctx):
    return eng.split_bool(st, eng.val(st, v))


# ------------------------------------------------------------------ formatting
def show(eng, s, x, tname):
    x = eng.deepval(s, x)
    b = tname
    while b.startswith('&'):
        b = b[1:].replace('mut ', '', 1).strip() if b[1:].startswith('mut ') else b[1:]
    if b in ('str', 'std::string::String') or 'std::path::Display' in b:
        return x
    if b == 'char':
        return chr_(x)
    if b.startswith('std::borrow::Cow'):
        return x
    return raw('show', b.replace('silverfox::', ''), x)


def fmt_template(tmpl, args, eng):
    out = []
    i = 0
    ai = 0
    if isinstance(tmpl, str):
        tmpl = tmpl.encode('latin1')
    while i < len(tmpl):
        n = tmpl[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(Str(bytes(tmpl[i:i + n]).decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            ln = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            out.append(Str(bytes(tmpl[i:i + ln]).decode('utf8', 'replace')))
            i += ln
        else:
            opts = []
            if n & 1:
                opts.append(('flags', int.from_bytes(bytes(tmpl[i:i + 4]), 'little')))
                i += 4
            if n & 2:
                opts.append(('width', int.from_bytes(bytes(tmpl[i:i + 2]), 'little')))
                i += 2
            if n & 4:
                opts.append(('prec', int.from_bytes(bytes(tmpl[i:i + 2]), 'little')))
                i += 2
            if n & 8:
                ai = int.from_bytes(bytes(tmpl[i:i + 2]), 'little')
                i += 2
            x = args[ai] if ai < len(args) else UNIT
            ai += 1
            fl = dict(opts).get('flags')
            if fl is not None and fl & (1 << 27) and not fl & (1 << 28):
                # width taken from an argument: keep the padded value, forget the width
                out.append(raw('pad', x, ('w?', fl)))
            elif opts:
                out.append(raw('pad', x, tuple(opts)))
            else:
                out.append(x)
    return cat(*out)


def fmt_text(eng, s, a):
    a = eng.val(s, a)
    if a.op == 'fmtargs':
        return a.a[0]
    return app('fmt', a)


def default_of(eng, ty):
    t = eng.p.ty(ty)
    k = t['k']
    if k in ('int', 'uint', 'float', 'bool', 'char'):
        return Int(0)
    if k == 'adt':
        n = t['name']
        if n in ('std::string::String', 'std::path::PathBuf'):
            return Str('')
        if n in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::LinkedList'):
            return raw('vec')
        if 'Map' in n or 'Set' in n:
            return raw('emptymap')
        if n == OPT:
            return NONE
    if k == 'tuple' and not t['e']:
        return UNIT
    return app('default', t.get('s') or k)


def tyname(eng, ty):
    if ty is None:
        return ''
    t = eng.p.ty(ty)
    if t['k'] == 'adt':
        return t['name']
    if t['k'] in ('ref', 'ptr'):
        return tyname(eng, t['e'])
    return t['k']


def range_of(eng, s, r):
    """(lo, hi) of a range value; None = open."""
    r = eng.val(s, r)
    if r.op == 'agg':
        n = r.a[0]
        f = [eng.val(s, x) for x in r.a[2:]]
        if n.endswith('RangeFrom'):
            return f[0], None
        if n.endswith('RangeTo'):
            return None, f[0]
        if n.endswith('RangeToInclusive'):
            return None, add(f[0], Int(1))
        if n.endswith('RangeInclusive'):
            return f[0], add(f[1], Int(1))
        if n.endswith('Range'):
            return f[0], f[1]
        if n.endswith('RangeFull'):
            return None, None
    return False


def sub_str(s, lo, hi):
    if lo is not None and lo.op == 'int' and lo.a[0] == 0:
        lo = None
    if hi is not None and hi is E.length(s):
        hi = None
    if lo is None and hi is None:
        return s
    if s.op == 'sub' and lo is not None and hi is None and s.a[2] is UNIT:
        return raw('sub', s.a[0], add(s.a[1], lo) if s.a[1] is not UNIT else lo, UNIT)
    return raw('sub', s, lo if lo is not None else UNIT, hi if hi is not None else UNIT)


def take(v, hi):
    if v.op == 'vec' and hi.op == 'int':
        return raw('vec', *v.a[:hi.a[0]])
    return raw('take', v, hi)


def from_(v, lo):
    if lo.op == 'int':
        if lo.a[0] == 0:
            return v
        if v.op == 'vec':
            return raw('vec', *v.a[lo.a[0]:])
        if v.op == 'from' and not isinstance(v.a[1], T):
            return raw('from', v.a[0], v.a[1] + lo.a[0])
        return raw('from', v, lo.a[0])
    return raw('from', v, lo)


def need(eng, s, ctx, cond, kind, detail):
    """Panic obligation: cond must hold; returns state with it assumed, or None."""
    d = E.decide(s, cond)
    if d == 1:
        return s
    f = s.copy()
    if E.assume(f, cond, 0):
        eng.panics.append((f, kind, eng.trace(ctx), detail))
    s = s.copy()
    if not E.assume(s, cond, 1):
        return None
    return s


CMPV = {'lt': Agg(ORD, 0), 'eq': Agg(ORD, 1), 'gt': Agg(ORD, 2)}


def cmp3(eng, s, a, b):
    out = []
    for st, v in eng.split_bool(s, Lt(a, b)):
        if v:
            out.append((st, CMPV['lt']))
            continue
        for s2, w in eng.split_bool(st, Eq(a, b)):
            if w:
                out.append((s2, CMPV['eq']))
            else:
                if E.assume(s2, Lt(b, a), 1):
                    out.append((s2, CMPV['gt']))
    return out


def islocal(inst):
    return inst is not None and 'silverfox::' in inst['name']


PUREF = {'trim': 1, 'trim_start': 1, 'trim_end': 1}

COLL = re.compile(r'^(std::vec::Vec|std::collections::(VecDeque|LinkedList|BTreeMap|HashMap|BTreeSet|HashSet)|std::string::String|std::slice|core::slice|core::str|std::str|std::iter|std::fmt|core::fmt)\b')


def model(eng, nm, inst, args, s, ctx, dest_ty, argtys):
    V = lambda t: eng.val(s, t)
    full = inst['name'] if inst is not None else nm
    last = nm.rsplit('::', 1)[-1]

    if PANIC.search(nm):
        eng.panics.append((s, 'panic:' + last, eng.trace(ctx), tuple(eng.vals(s, args))))
        return None
    if nm in ('std::process::exit', 'std::process::abort'):
        eng.diverge.append((s, nm, tuple(eng.vals(s, args)), eng.trace(ctx)))
        return None

    if nm == 'std::ops::RangeInclusive::<Idx>::new':
        return [(s, Agg('std::ops::RangeInclusive', 0, V(args[0]), V(args[1]), FALSE))]
    if last == 'contains' and re.match(r'^std::ops::Range\w*(::<.*>)?::contains$', nm):
        r, x = V(args[0]), V(args[1])
        if r.op == 'agg' and 'ops::Range' in r.a[0]:
            f = [V(y) for y in r.a[2:]]
            k = r.a[0].rsplit('::', 1)[-1]
            lo = f[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else None
            hi = f[1] if k in ('Range', 'RangeInclusive') else f[0] if k in ('RangeTo', 'RangeToInclusive') else None
            conds = []
            if lo is not None:
                conds.append(Not(Lt(x, lo)))
            if hi is not None:
                conds.append(Not(Lt(hi, x)) if k.endswith('Inclusive') else Lt(x, hi))
            out, todo = [], [s]
            for c in conds:
                nxt = []
                for st in todo:
                    for s2, b in eng.split_bool(st, c):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, FALSE))
                todo = nxt
            return out + [(st, TRUE) for st in todo]

    if 'chrono::NaiveDate as std::ops::Sub>' in full and last == 'sub':
        return [(s, app('chrono::NaiveDate::signed_duration_since', V(args[0]), V(args[1])))]
    if last == 'from_ymd_opt' and nm.startswith('chrono::'):
        v = eng.vals(s, args)
        if all(x.op == 'int' for x in v) and 1 <= v[1].a[0] <= 12 and 1 <= v[2].a[0] <= 28 and abs(v[0].a[0]) < 200000:
            return [(s, Some(app('from_ymd', *v)))]

    # ---------------------------------------------------------- identities
    if nm == 'std::iter::IntoIterator::into_iter':
        tn = tyname(eng, argtys[0]) if argtys else ''
        if tn in ('std::collections::HashMap', 'std::collections::HashSet'):
            eng.hashed.add(keys_of(V(args[0])).a[0])
        if tn in ('std::collections::BTreeMap', 'std::collections::HashMap'):
            if args[0].op == 'ref':
                return [(s, raw('itmv', args[0], 'e', 0))]
            return [(s, it_base(raw('entries', V(args[0]))))]
        if tn in ('std::collections::BTreeSet', 'std::collections::HashSet'):
            return [(s, it_base(raw('keys', V(args[0]))))]
        return [(s, as_iter(eng, s, args[0]))]
    if nm == 'std::iter::Iterator::by_ref':
        return [(s, args[0])]
    if last in ('as_mut', 'as_deref_mut') and nm.startswith('std::option::Option'):
        v = V(args[0])
        if args[0].op == 'ref':
            out = []
            for st, b, x in split_opt(eng, s, v):
                if b:
                    if discr(v).op != 'int':
                        eng.store(st, args[0].a[0], args[0].a[1], Some(x))
                    out.append((st, Some(raw('ref', args[0].a[0], args[0].a[1] + (('f', OPT, 1, 0),)))))
                else:
                    out.append((st, NONE))
            return out
        return [(s, v)]
    if nm == 'std::option::Option::<T>::take':
        v = V(args[0])
        if args[0].op == 'ref':
            s = s.copy()
            eng.store(s, args[0].a[0], args[0].a[1], NONE)
        return [(s, v)]
    if nm in ('std::mem::take', 'std::mem::replace', 'std::mem::swap'):
        if args[0].op == 'ref':
            s = s.copy()
            v = eng.load(s, args[0].a[0], args[0].a[1])
            if last == 'replace':
                eng.store(s, args[0].a[0], args[0].a[1], args[1])
                return [(s, v)]
            if last == 'take':
                eng.store(s, args[0].a[0], args[0].a[1], default_of(eng, dest_ty))
                return [(s, v)]
            if args[1].op == 'ref':
                w = eng.load(s, args[1].a[0], args[1].a[1])
                eng.store(s, args[0].a[0], args[0].a[1], w)
                eng.store(s, args[1].a[0], args[1].a[1], v)
                return [(s, UNIT)]
    if IDENT.search(nm):
        if nm == 'std::clone::Clone::clone':
            return [(s, eng.deepval(s, args[0]))]
        return [(s, args[0])]
    if nm == 'std::string::ToString::to_string' or nm == 'std::string::SpecToString::spec_to_string':
        tn = ''
        m = re.match(r'^<(.*) as std::string::(Spec)?ToString>::', full)
        tn = m.group(1) if m else 'str'
        return [(s, show(eng, s, args[0], tn))]
    if nm in ('std::convert::From::from', 'std::convert::Into::into', 'std::str::FromStr::from_str') and not islocal(inst):
        if re.search(r'as std::convert::From<(&\w* ?)?(mut )?(std::string::String|str|std::path::(Path|PathBuf)|&str)>>|as std::convert::From<&', full) \
                or re.search(r'as std::convert::Into<std::(string::String|path::PathBuf)>', full) or re.search(r'<impl std::convert::From<.*> for std::string::String>', full):
            if 'From<char>' not in full:
                return [(s, V(args[0]))]
        if full.startswith('<T as std::convert::From<T>>') or re.search(r'^<(.*) as std::convert::From<\1>>::from$', full):
            return [(s, args[0])]
        if 'From<char>' in full and 'String' in full:
            return [(s, chr_(V(args[0])))]
        if re.search(r'From<\[.*\]>', full) and ('Map' in full or 'Set' in full):
            v = V(args[0])
            m = raw('emptymap')
            if v.op == 'vec':
                for x in v.a:
                    x = V(x)
                    m = mput(m, x.a[2], x.a[3]) if x.op == 'agg' and len(x.a) == 4 and 'Map' in full else mput(m, x, UNIT)
                return [(s, m)]

    # ---------------------------------------------------------- comparisons
    if islocal(inst) and nm == 'std::cmp::PartialEq::ne' or islocal(inst) and inst['name'].endswith(' as std::cmp::PartialEq>::ne'):
        want = inst['name'][:-2] + 'eq'
        eq = [i for i in eng.p.insts.values() if i['name'] == want] if isinstance(eng.p.insts, dict) else [i for i in eng.p.insts if i and i['name'] == want]
        if len(eq) == 1 and eq[0].get('body'):
            out = []
            for s2, v in (eng.invoke(eq[0], args, s, ctx) or []):
                out.append((s2, Not(eng.val(s2, v))))
            return out
    if not islocal(inst):
        if nm in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            e = Eq(eng.deepval(s, args[0]), eng.deepval(s, args[1]))
            return [(s, e if last == 'eq' else Not(e))]
        if nm.startswith('std::cmp::PartialOrd::') and last in ('lt', 'le', 'gt', 'ge'):
            a, b = V(args[0]), V(args[1])
            return [(s, {'lt': Lt(a, b), 'le': Le(a, b), 'gt': Lt(b, a), 'ge': Le(b, a)}[last])]
        if nm == 'std::cmp::Ord::cmp' or nm == 'core::f64::<impl f64>::total_cmp':
            return cmp3(eng, s, V(args[0]), V(args[1]))
        if nm == 'std::cmp::PartialOrd::partial_cmp':
            return [(st, Some(v)) for st, v in cmp3(eng, s, V(args[0]), V(args[1]))]
        if nm in ('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min'):
            return [(s, ac(last, V(args[0]), V(args[1])))]
        if nm == 'std::cmp::Ord::clamp' or nm.endswith('<impl f64>::clamp'):
            return [(s, ac('min', ac('max', V(args[0]), V(args[1])), V(args[2])))]
        m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Neg|AddAssign|SubAssign)::', nm)
        if m and re.search(r'for (&?f64|&?usize|&?i32|&?u32|&?i64)|<&?(f64|usize|i32|u32|i64) as', full):
            f = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div}
            if m.group(1) == 'Neg':
                return [(s, neg(V(args[0])))]
            if m.group(1) in f:
                return [(s, f[m.group(1)](V(args[0]), V(args[1])))]
            if args[0].op == 'ref':
                s = s.copy()
                g = add if m.group(1) == 'AddAssign' else sub
                eng.store(s, args[0].a[0], args[0].a[1], g(V(args[0]), V(args[1])))
                return [(s, UNIT)]
    if re.search(r'<impl f64>::', nm):
        a = V(args[0])
        if last in ('max', 'min'):
            return [(s, ac(last, a, V(args[1])))]
        if last == 'abs':
            return [(s, absv(a))]
        if last == 'is_sign_negative':
            return [(s, Lt(a, Num(0)))]
        if last == 'is_sign_positive':
            return [(s, Le(Num(0), a))]
        if last == 'clamp':
            return [(s, ac('min', ac('max', a, V(args[1])), V(args[2])))]
        if last in ('copysign', 'signum'):
            b = V(args[1]) if last == 'copysign' else a
            m_ = absv(a) if last == 'copysign' else Num(1)
            return [(s2, neg(m_) if t else m_) for s2, t in eng.split_bool(s, Lt(b, Num(0)))]
        return [(s, app('f64::' + last, *[V(x) for x in args]))]

    # ---------------------------------------------------------- formatting
    if nm.startswith('core::fmt::rt::Argument') or nm.startswith('std::fmt::rt::Argument'):
        if last in ('new_display', 'new_debug'):
            m = re.search(r'::new_\w+::<(.*)>$', full)
            tn = m.group(1) if m else ''
            if last == 'new_debug':
                return [(s, raw('debug', eng.deepval(s, args[0])))]
            return [(s, show(eng, s, args[0], tn))]
        if last == 'from_usize':
            return [(s, raw('usizearg', V(args[0])))]
        return [(s, app('fmtarg', eng.deepval(s, args[0])))]
    if nm.startswith('std::fmt::Arguments') or nm.startswith('core::fmt::Arguments'):
        if last == 'new':
            t, a = V(args[0]), V(args[1])
            al = list(a.a) if a.op == 'vec' else [a]
            if t.op == 'bytes':
                return [(s, raw('fmtargs', fmt_template(t.a[0], al, eng)))]
            if t.op == 'vec' and all(x.op == 'int' for x in t.a):
                return [(s, raw('fmtargs', fmt_template(bytes(x.a[0] for x in t.a), al, eng)))]
            return [(s, raw('fmtargs', app('fmt', t, *al)))]
        if last in ('from_str', 'from_str_nonconst', 'new_const'):
            return [(s, raw('fmtargs', V(args[0])))]
        if last == 'as_str':
            return [(s, app('Arguments::as_str', V(args[0])))]
    if nm in ('std::fmt::format', 'alloc::fmt::format'):
        return [(s, fmt_text(eng, s, args[0]))]
    if nm.startswith('std::fmt::Formatter') and last in ('write_fmt', 'write_str') or nm in ('std::fmt::Write::write_fmt', 'std::fmt::Write::write_str', 'std::fmt::Write::write_char'):
        text = fmt_text(eng, s, args[1]) if last == 'write_fmt' else chr_(V(args[1])) if last == 'write_char' else V(args[1])
        if args[0].op == 'ref':
            s = s.copy()
            eng.store(s, args[0].a[0], args[0].a[1], cat(V(args[0]), text))
        if contains(text, lambda x: x.op == 'app' and x.a[0] == 'chrono::NaiveDate::format'):
            return [(s, app('fmt_result', text))]
        return [(s, Ok(UNIT))]
    if nm.startswith('std::fmt::Formatter'):
        if last == 'pad' and args[0].op == 'ref':
            s = s.copy()
            eng.store(s, args[0].a[0], args[0].a[1], cat(V(args[0]), V(args[1])))
            return [(s, Ok(UNIT))]
        if last.startswith('debug_'):
            return [(s, Ok(UNIT))]
        return [(s, app('Formatter::' + last))]
    if nm in ('std::fmt::Display::fmt', 'std::fmt::Debug::fmt') and not (inst is not None and inst['local']):
        m = re.match(r'^<(.*) as std::fmt::(Display|Debug)>::fmt$', full)
        m2 = re.search(r'<impl std::fmt::\w+ for (.*)>::fmt$', full)
        tn = m.group(1) if m else m2.group(1) if m2 else 'str'
        t = show(eng, s, args[0], tn) if 'Display' in nm else raw('debug', eng.deepval(s, args[0]))
        if args[1].op == 'ref':
            s = s.copy()
            eng.store(s, args[1].a[0], args[1].a[1], cat(V(args[1]), t))
        return [(s, Ok(UNIT))]
    if nm in ('std::io::_print', 'std::io::_eprint'):
        s = s.copy()
        s.ev = s.ev + ((last.strip('_'), fmt_text(eng, s, args[0]), ctx.line),)
        return [(s, UNIT)]
    if nm == 'std::io::Write::write_fmt':
        t = fmt_text(eng, s, args[1])
        f = V(args[0])
        s = s.copy()
        s.ev = s.ev + (('io_write', f, t, full, ctx.line),)
        return [(s, app('io_write', f, t))]
    if nm in ('std::io::Write::write_all', 'std::io::Write::write'):
        t = V(args[1])
        f = V(args[0])
        s = s.copy()
        s.ev = s.ev + (('io_write', f, t, full, ctx.line),)
        return [(s, app('io_write', f, t))]

    # ---------------------------------------------------------- files
    if nm == 'std::fs::OpenOptions::new' or nm.endswith('File::options'):
        return [(s, raw('openopts', ()))]
    if nm.startswith('std::fs::OpenOptions::') and last != 'open':
        if args[0].op == 'ref':
            v = V(args[0])
            if v.op == 'openopts':
                s = s.copy()
                eng.store(s, args[0].a[0], args[0].a[1], raw('openopts', v.a[0] + ((last, V(args[1])),)))
        return [(s, args[0])]
    if nm == 'std::fs::OpenOptions::open':
        o, p = V(args[0]), V(args[1])
        s = s.copy()
        s.ev = s.ev + (('open', o, p, ctx.line),)
        return [(s, app('open', o, p))]

    # ---------------------------------------------------------- vec![..] lowering
    if nm == 'std::boxed::Box::<T>::new_uninit':
        return [(s, raw('box', ctx.line, len(ctx.stack)))]
    if nm == 'std::boxed::box_assume_init_into_vec_unsafe':
        b = args[0]
        v = s.mem.get(('heap', b))
        if v is None:
            v = V(b)
        return [(s, v)]

    # ---------------------------------------------------------- options (opaque-friendly)
    if nm.startswith('std::option::Option') and last in ('is_some', 'is_none', 'unwrap_or', 'unwrap_or_default'):
        v = V(args[0])
        d = discr(v)
        if d.op != 'int':
            E.DOM.setdefault(d, frozenset((0, 1)))
        if last == 'is_some':
            return [(s, Eq(d, Int(1)))]
        if last == 'is_none':
            return [(s, Eq(d, Int(0)))]
        out = []
        for st, b, x in split_opt(eng, s, v):
            out.append((st, x if b else (args[1] if last == 'unwrap_or' else default_of(eng, dest_ty))))
        return out
    if nm.startswith('std::result::Result') and last in ('is_ok', 'is_err'):
        v = V(args[0])
        d = discr(v)
        if d.op != 'int':
            E.DOM.setdefault(d, frozenset((0, 1)))
        return [(s, Eq(d, Int(0 if last == 'is_ok' else 1)))]

    m = re.match(r'std::ops::(Add|Sub|Mul|Div)Assign::\w+_assign$', nm)
    if m and not islocal(inst) and args[0].op == 'ref':
        s = s.copy()
        op = m.group(1)
        v, w = V(args[0]), V(args[1])
        if full.split(' as ')[0].lstrip('<') in ('f64', 'usize', 'u32', 'i32', 'u64', 'i64', 'f32'):
            x = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div}[op](v, w)
        elif 'String' in full.split(' as ')[0]:
            x = cat(v, w)
        else:
            x = app('std::ops::%s::%s' % (op, op.lower()), v, w)
        eng.store(s, args[0].a[0], args[0].a[1], x)
        return [(s, UNIT)]

    # ---------------------------------------------------------- iterators
    r = iter_model(eng, nm, last, full, inst, args, s, ctx, dest_ty) if args or nm in ARGLESS else NotImplemented
    if r is not NotImplemented:
        return r
    r = coll_model(eng, nm, last, full, inst, args, s, ctx, dest_ty) if args else NotImplemented
    if r is not NotImplemented:
        return r

    # ---------------------------------------------------------- defaults
    if nm == 'std::default::Default::default' and dest_ty is not None and not (inst is not None and inst['local']):
        return [(s, default_of(eng, dest_ty))]
    if nm in ('std::path::PathBuf::new', 'std::string::String::new', 'std::vec::Vec::<T>::new') or \
            (nm.startswith('std::collections::') or nm.startswith('std::vec::') or nm.startswith('std::string::String')) and last in ('new', 'with_capacity'):
        return [(s, default_of(eng, dest_ty) if dest_ty is not None else raw('vec'))]
    if nm.startswith('std::char::methods') or nm.startswith('core::char::methods'):
        x = app('char::' + last, *[V(a) for a in args])
        E.DOM.setdefault(x, frozenset((0, 1)))
        return [(s, x)]
    return NotImplemented


def iter_model(eng, nm, last, full, inst, args, s, ctx, dest_ty):
    V = lambda t: eng.val(s, t)
    # constructors
    if last in ('iter', 'into_iter', 'iter_mut', 'values_mut', 'keys', 'values', 'into_keys', 'into_values', 'drain') and \
            ('::HashMap' in nm or '::HashSet' in nm) and args:
        eng.hashed.add(keys_of(V(args[0])).a[0])
    if last in ('iter', 'into_iter') and COLL.search(nm) and not nm.startswith('std::iter'):
        v = V(args[0])
        if 'Map' in nm:
            return [(s, it_base(raw('entries', v)))]
        if 'Set' in nm:
            return [(s, it_base(raw('keys', v)))]
        return [(s, it_list(v))]
    if last == 'iter_mut' and COLL.search(nm):
        a = args[0]
        if a.op == 'ref':
            if 'Map' in nm:
                return [(s, raw('itmv', a, 'e', 0))]
            return [(s, raw('itm', a, 0))]
        if 'Map' not in nm:
            h = ('heap', a)
            s = s.copy()
            s.mem.setdefault(h, a)
            return [(s, raw('itm', raw('ref', h, ()), 0))]
    if last == 'values_mut' and args[0].op == 'ref':
        return [(s, raw('itmv', args[0], 'v', 0))]
    if last in ('keys', 'values', 'into_keys', 'into_values') and 'Map' in nm:
        return [(s, it_base(raw(last.replace('into_', ''), V(args[0]))))]
    if last == 'drain' and args[0].op == 'ref':
        v = V(args[0])
        s = s.copy()
        eng.store(s, args[0].a[0], args[0].a[1], raw('vec'))
        return [(s, it_list(v))]
    if nm.startswith('core::str::<impl str>::') or nm.startswith('std::str::'):
        v = V(args[0])
        if last == 'chars':
            return [(s, it_base(raw('chars', v)))]
        if last == 'lines':
            return [(s, it_base(raw('lines', v)))]
        if last == 'split_whitespace':
            return [(s, it_base(raw('words', strip(v))))]
        if last in ('split', 'splitn', 'rsplit', 'split_terminator', 'char_indices', 'bytes', 'matches', 'split_inclusive'):
            return [(s, it_base(raw('splits', v, last, *[V(a) for a in args[1:]])))]
    if nm.startswith('csv::') and last in ('records', 'into_records'):
        return [(s, it_base(raw('records', V(args[0]))))]
    if nm.startswith('csv::StringRecord') and last == 'iter':
        return [(s, it_base(raw('fields', V(args[0]))))]
    if nm == 'std::env::args' or nm == 'std::env::args_os':
        return [(s, it_base(raw('sym', 'argv')))]
    if nm == 'std::iter::empty':
        return [(s, it_base(raw('vec')))]
    if nm == 'std::iter::once':
        return [(s, it_base(raw('vec', args[0])))]
    if not nm.startswith('std::iter::') and not (LOCAL_ITER.search(full) and last == 'next'):
        return NotImplemented

    ref = args[0] if args[0].op == 'ref' else None
    it = V(args[0])
    if not E.is_iter(it):
        it = as_iter(eng, s, it)

    def setit(st, n):
        if ref is not None:
            r = ref
            # by_ref chains: follow to the innermost iterator cell
            while True:
                v = eng.load(st, r.a[0], r.a[1])
                if v.op == 'ref':
                    r = v
                else:
                    break
            eng.store(st, r.a[0], r.a[1], n)

    if last == 'next':
        out = []
        for st, k, x, n in step(eng, it, s, ctx):
            st = st.copy()
            setit(st, n)
            if k == 'some':
                out.append((st, Some(x)))
            elif k == 'none':
                out.append((st, NONE))
            else:
                out.append((st, E.SKIP))
        return out
    if last == 'next_back' or last == 'last' or nm.endswith('Peekable::<I>::peek'):
        if last == 'last' or last == 'next_back':
            l = list_of(it)
            x = raw('lastof', l)
            out = []
            nonempty = Lt(Int(0), E.length(l))
            if l.op == 'splits':
                setit(s, raw('it', raw('butlast', l), 0))
                return [(s, Some(x))]
            for st, v in eng.split_bool(s, nonempty):
                st = st.copy()
                setit(st, raw('it', raw('butlast', l), 0))
                out.append((st, Some(x) if v else NONE))
            return out
    # adaptors
    A = [a for a in args[1:]]
    if last == 'map':
        return [(s, raw('imap', it, A[0]))]
    if last == 'filter':
        return [(s, raw('ifilter', it, A[0]))]
    if last == 'filter_map':
        return [(s, raw('ifmap', it, A[0]))]
    if last == 'flatten' or last == 'flat_map':
        b = it
        while last == 'flatten' and b.op in ('it', 'irev', 'from', 'list', 'take') and isinstance(b.a[0], T):
            b = b.a[0]
        if b.op == 'records':
            return [(s, raw('ires', it))]
        return [(s, raw('iflat', it, *A))]
    if last in ('cloned', 'copied', 'fuse', 'peekable', 'into_iter', 'by_ref', 'inspect'):
        return [(s, it)]
    if last == 'rev':
        return [(s, it.a[0] if it.op == 'irev' and len(it.a) == 1 else raw('irev', it))]
    if last == 'chain':
        return [(s, raw('ichain', it, as_iter(eng, s, A[0])))]
    if last == 'enumerate':
        return [(s, raw('ienum', it, Int(0)))]
    if last == 'zip':
        return [(s, raw('izip', it, as_iter(eng, s, A[0])))]
    if last == 'skip':
        n = V(A[0])
        if it.op == 'it' and not isinstance(it.a[1], T):
            if n.op == 'int':
                return [(s, raw('it', it.a[0], it.a[1] + n.a[0]))]
            if it.a[1] == 0:
                return [(s, raw('it', raw('from', it.a[0], n), 0))]
        return [(s, raw('it', raw('from', list_of(it), n), 0))]
    if last == 'take':
        return [(s, raw('it', raw('take', list_of(it), V(A[0])), 0))]
    if last in ('take_while', 'map_while'):
        return [(s, raw('itakew' if last == 'take_while' else 'imapw', it, V(A[0])))]
    if last in ('skip_while', 'step_by', 'scan'):
        return [(s, raw('it', raw(last, list_of(it), *[V(a) for a in A]), 0))]
    # consumers
    depth = ctx.loops

    def fin(tagged):
        return tagged
    if last in ('any', 'all'):
        want = 1 if last == 'any' else 0

        def b(st, x, c):
            out = []
            for s2, v in (eng.apply(A[0], [x], st, c) or []):
                for s3, w in eng.split_bool(s2, eng.val(s2, v)):
                    out.append(('exit', 'hit', s3, UNIT) if w == want else ('back', s3))
            return out
        r = syn_loop(eng, s, ctx, it, {}, b)
        out = []
        for st, v, rest in r.get('hit', []):
            setit(st, rest)
            out.append((st, B(want)))
        for st, v, rest in r.get('end', []):
            setit(st, raw('iempty'))
            out.append((st, B(1 - want)))
        return eng.merge(out)
    if last in ('find', 'position', 'find_map', 'rposition', 'rfind'):
        if last in ('rposition', 'rfind'):
            whole, it = it, it.a[0] if it.op == 'irev' and len(it.a) == 1 else raw('irev', it)

        def b(st, x, c):
            out = []
            for s2, v in (eng.apply(A[0], [x], st, c) or []):
                if last == 'find_map':
                    for s3, w, y in split_opt(eng, s2, v):
                        out.append(('exit', 'hit', s3, y) if w else ('back', s3))
                    continue
                for s3, w in eng.split_bool(s2, eng.val(s2, v)):
                    val = x if last in ('find', 'rfind') else raw('idx', depth)
                    if last == 'rposition':
                        val = add(add(E.length(list_of(whole)), Int(1), -1), val, -1)
                    out.append(('exit', 'hit', s3, val) if w else ('back', s3))
            return out
        r = syn_loop(eng, s, ctx, it, {}, b)
        out = []
        for st, v, rest in r.get('hit', []):
            setit(st, rest)
            out.append((st, Some(v)))
        for st, v, rest in r.get('end', []):
            setit(st, raw('iempty'))
            out.append((st, NONE))
        return out
    if last in ('fold', 'for_each', 'sum', 'count', 'product'):
        init = args[1] if last == 'fold' else Int(0)
        if last == 'count' and it.op == 'it':
            return [(s, E.length(list_of(it)))]
        cell = ('acc', depth, 'acc')

        def b(st, x, c):
            acc = st.mem[cell]
            out = []
            if last == 'fold':
                r = eng.apply(A[1], [acc, x], st, c) or []
            elif last == 'for_each':
                r = [(s2, acc) for s2, _ in (eng.apply(A[0], [x], st, c) or [])]
            elif last == 'sum':
                r = [(st, add(acc, eng.val(st, x)))]
            elif last == 'product':
                r = [(st, mul(acc, eng.val(st, x)))]
            else:
                r = [(st, add(acc, Int(1)))]
            for s2, v in r:
                s2 = s2.copy()
                s2.mem[cell] = v
                out.append(('back', s2))
            return out
        if last == 'sum' and dest_ty is not None and eng.p.ty(dest_ty)['k'] == 'adt':
            return NotImplemented
        r = syn_loop(eng, s, ctx, it, {'acc': init}, b)
        out = []
        for st, v, rest in r.get('end', []):
            a = popacc(st, depth, 'acc')
            out.append((st, UNIT if last == 'for_each' else a))
        return out
    if last in ('try_for_each', 'try_fold'):
        cell = ('acc', depth, 'acc')
        init = args[1] if last == 'try_fold' else UNIT

        def b(st, x, c):
            out = []
            fa = [st.mem[cell], x] if last == 'try_fold' else [x]
            for s2, v in (eng.apply(A[-1], fa, st, c) or []):
                for s3, e, y in split_res(eng, s2, v):
                    if e:
                        out.append(('exit', 'hit', s3, Err(y)))
                    else:
                        s3 = s3.copy()
                        s3.mem[cell] = y
                        out.append(('back', s3))
            return out
        r = syn_loop(eng, s, ctx, it, {'acc': init}, b)
        out = []
        for st, v, rest in r.get('hit', []):
            popacc(st, depth, 'acc')
            out.append((st, v))
        for st, v, rest in r.get('end', []):
            out.append((st, Ok(popacc(st, depth, 'acc'))))
        return out
    if last == 'nth':
        n = V(A[0])
        if it.op == 'it' and not isinstance(it.a[1], T) and n.op == 'int':
            it2 = raw('it', it.a[0], it.a[1] + n.a[0])
            out = []
            for st, k, x, nn in step(eng, it2, s, ctx):
                st = st.copy()
                setit(st, nn)
                out.append((st, Some(x) if k == 'some' else NONE))
            return out
        return NotImplemented
    if last in ('max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key'):
        l = list_of(it)
        out = []
        x = app('iter_' + last, l, *[V(a) for a in A])
        base = it
        while base.op == 'imap':
            base = base.a[0]
        for st, v in eng.split_bool(s, Lt(Int(0), E.length(list_of(base)))):
            out.append((st, Some(x) if v else NONE))
        return out
    if last == 'collect' or last == 'partition' or last == 'unzip':
        if last != 'collect':
            return [(s, app('iter_' + last, list_of(it), *[V(a) for a in A]))]
        t = eng.p.ty(dest_ty) if dest_ty is not None else {'k': '?'}
        n = t.get('name', '')
        if n in (RES, OPT):
            inner = tyname(eng, t['args'][0]) if t.get('args') else ''
            return collect_try(eng, s, ctx, it, n, inner)
        return collect_into(eng, s, ctx, it, n)
    if last == 'extend':
        return NotImplemented
    return NotImplemented


def collect_kind(n):
    if n == 'std::string::String':
        return 'str'
    if 'Map' in n:
        return 'map'
    if 'Set' in n:
        return 'set'
    return 'vec'


def acc_add(kind, acc, x):
    if kind == 'vec':
        return push(acc, x)
    if kind == 'str':
        e = x
        if e.op == 'elem' and contains(e.a[0], lambda y: y.op == 'chars'):
            return cat(acc, raw('chr', x))
        return cat(acc, x)
    if kind == 'set':
        return mput(acc, x, UNIT)
    if x.op == 'agg' and len(x.a) == 4:
        return mput(acc, x.a[2], x.a[3])
    return mput(acc, raw('fld', x, '0'), raw('fld', x, '1'))


ACC0 = {'vec': raw('vec'), 'str': Str(''), 'set': raw('emptymap'), 'map': raw('emptymap')}


def collect_into(eng, s, ctx, it, n):
    kind = collect_kind(n)
    if it.op in ('it', 'irev', 'ichain') and not mutable(it):
        l = list_of(it)
        if kind == 'vec':
            return [(s, l)]
        if kind == 'set':
            if l.op == 'keys' and l.a[0].op in ('setof',) and not ('BTree' in n and l.a[0] in eng.hashed):
                return [(s, l.a[0])]
            return [(s, raw('setof', l))]
        if kind == 'map':
            if l.op == 'entries' and not ('BTree' in n and l.a[0] in eng.hashed):
                return [(s, l.a[0])]
            return [(s, raw('mapof', l))]
        return [(s, raw('strof', l))]
    depth = ctx.loops
    cell = ('acc', depth, 'acc')

    def b(st, x, c):
        st = st.copy()
        st.mem[cell] = acc_add(kind, st.mem[cell], eng.deepval(st, x))
        return [('back', st)]
    r = syn_loop(eng, s, ctx, it, {'acc': ACC0[kind]}, b)
    return [(st, popacc(st, depth, 'acc')) for st, v, rest in r.get('end', [])]


def collect_try(eng, s, ctx, it, n, inner):
    kind = collect_kind(inner)
    depth = ctx.loops
    cell = ('acc', depth, 'acc')

    def b(st, x, c):
        out = []
        if n == RES:
            for s3, e, y in split_res(eng, st, x):
                if e:
                    out.append(('exit', 'hit', s3, Err(y)))
                else:
                    s3 = s3.copy()
                    s3.mem[cell] = acc_add(kind, s3.mem[cell], y)
                    out.append(('back', s3))
        else:
            for s3, h, y in split_opt(eng, st, x):
                if not h:
                    out.append(('exit', 'hit', s3, NONE))
                else:
                    s3 = s3.copy()
                    s3.mem[cell] = acc_add(kind, s3.mem[cell], y)
                    out.append(('back', s3))
        return out
    r = syn_loop(eng, s, ctx, it, {'acc': ACC0[kind]}, b)
    out = []
    for st, v, rest in r.get('hit', []):
        popacc(st, depth, 'acc')
        out.append((st, v))
    for st, v, rest in r.get('end', []):
        a = popacc(st, depth, 'acc')
        out.append((st, Ok(a) if n == RES else Some(a)))
    return out


def coll_model(eng, nm, last, full, inst, args, s, ctx, dest_ty):
    V = lambda t: eng.val(s, t)

    def upd(v):
        st = s.copy()
        if args[0].op == 'ref':
            eng.store(st, args[0].a[0], args[0].a[1], v)
        else:
            st.mem[('heap', args[0])] = v
        return st
    isstr = nm.startswith('core::str::<impl str>') or nm.startswith('std::str::<impl str>') or nm.startswith('std::string::String')
    isvec = nm.startswith('std::vec::Vec') or nm.startswith('core::slice') or nm.startswith('std::slice') or \
        nm.startswith('std::collections::VecDeque') or nm.startswith('std::collections::LinkedList')
    ismap = re.match(r'^std::collections::(BTreeMap|HashMap|BTreeSet|HashSet|btree_map|hash_map)', nm) is not None
    if not (isstr or isvec or ismap or nm.startswith('std::ops::Index')
            or nm == 'std::iter::Extend::extend' or nm.startswith('std::path') or nm.startswith('std::ffi')):
        m = re.match(r'^std::ops::(Add|AddAssign)::', nm)
        if m and '<std::string::String as' in full:
            if m.group(1) == 'Add':
                return [(s, cat(V(args[0]), V(args[1])))]
            return [(upd(cat(V(args[0]), V(args[1]))), UNIT)]
        return NotImplemented
    if nm == 'std::iter::Extend::extend' and args[0].op == 'ref':
        it = as_iter(eng, s, args[1])
        cur = V(args[0])
        kind = 'str' if 'String as' in full.split(' as ')[0] + ' as' else 'map' if 'Map' in full.split(' as ')[0] else 'set' if 'Set' in full.split(' as ')[0] else 'vec'
        if kind == 'vec' and it.op == 'it':
            return [(upd(concat(cur, list_of(it))), UNIT)]
        depth = ctx.loops
        cell = ('acc', depth, 'acc')

        def b(st, x, c):
            st = st.copy()
            st.mem[cell] = acc_add(kind, st.mem[cell], eng.deepval(st, x))
            return [('back', st)]
        r = syn_loop(eng, s, ctx, it, {'acc': cur}, b)
        out = []
        for st, v, rest in r.get('end', []):
            a = popacc(st, depth, 'acc')
            eng.store(st, args[0].a[0], args[0].a[1], a)
            out.append((st, UNIT))
        return out
    if last in ('len', 'is_empty') and (isstr or isvec or ismap) or nm.endswith('OsStr::is_empty'):
        v = V(args[0])
        n = E.length(v) if not ismap else maplen(v)
        return [(s, n if last == 'len' else Eq(n, Int(0)))]
    if last == 'clear':
        return [(upd(raw('emptymap') if ismap else Str('') if isstr else raw('vec')), UNIT)]
    # ---- strings
    if isstr:
        v = V(args[0])
        if last == 'push_str':
            return [(upd(cat(v, V(args[1]))), UNIT)]
        if last == 'push':
            return [(upd(cat(v, chr_(V(args[1])))), UNIT)]
        if last in ('trim', 'trim_start', 'trim_end'):
            return [(s, trim(last, v))]
        if last in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case'):
            p = V(args[1])
            if v.op == 'str' and p.op == 'str':
                r = {'starts_with': v.a[0].startswith(p.a[0]), 'ends_with': v.a[0].endswith(p.a[0]), 'contains': p.a[0] in v.a[0]}.get(last)
                if r is not None:
                    return [(s, B(r))]
            x = app('str::' + last, v, eng.deepval(s, args[1]))
            E.DOM.setdefault(x, frozenset((0, 1)))
            return [(s, x)]
        if last in ('find', 'rfind', 'strip_prefix', 'strip_suffix', 'get', 'split_once', 'rsplit_once', 'char_indices', 'parse') and last != 'parse':
            x = app('str::' + last, v, *[eng.deepval(s, a) for a in args[1:]])
            E.DOM.setdefault(discr(x), frozenset((0, 1)))
            return [(s, x)]
        if last == 'repeat':
            return [(s, app('str::repeat', v, V(args[1])))]
        if last in ('replace', 'to_lowercase', 'to_uppercase', 'replacen', 'to_ascii_lowercase', 'trim_matches', 'trim_start_matches', 'trim_end_matches'):
            return [(s, app('str::' + last, v, *[eng.deepval(s, a) for a in args[1:]]))]
        if last in ('insert_str', 'insert', 'remove', 'pop', 'truncate', 'retain'):
            st = upd(app('string::' + last, v, *[V(a) for a in args[1:]]))
            r = app('string::ret:' + last, v, *[V(a) for a in args[1:]])
            if last == 'pop':
                E.DOM.setdefault(discr(r), frozenset((0, 1)))
            return [(st, r if last in ('remove', 'pop') else UNIT)]
        if last in ('is_char_boundary',):
            return [(s, app('str::' + last, v, V(args[1])))]
    # ---- vectors
    if isvec:
        v = V(args[0])
        if last in ('push', 'push_back'):
            return [(upd(push(v, eng.deepval(s, args[1]) if args[1].op != 'ref' else args[1])), UNIT)]
        if last == 'push_front':
            return [(upd(concat(raw('vec', args[1]), v)), UNIT)]
        if last == 'insert':
            i = V(args[1])
            if i.op == 'int' and i.a[0] == 0:
                return [(upd(concat(raw('vec', args[2]), v)), UNIT)]
            if i is E.length(v):
                return [(upd(push(v, eng.deepval(s, args[2]) if args[2].op != 'ref' else args[2])), UNIT)]
            return [(upd(app('vec::insert', v, i, V(args[2]))), UNIT)]
        if last == 'append' and args[1].op == 'ref':
            w = V(args[1])
            st = upd(concat(v, w))
            eng.store(st, args[1].a[0], args[1].a[1], raw('vec'))
            return [(st, UNIT)]
        if last in ('extend_from_slice',):
            return [(upd(concat(v, V(args[1]))), UNIT)]
        if last in ('pop_front', 'pop_back', 'pop'):
            out = []
            for st, b in eng.split_bool(s, Lt(Int(0), E.length(v))):
                if b:
                    st = st.copy()
                    nv = from_(v, Int(1)) if last == 'pop_front' else raw('butlast', v)
                    x = elem_at(v, Int(0)) if last == 'pop_front' else raw('lastof', v)
                    if args[0].op == 'ref':
                        eng.store(st, args[0].a[0], args[0].a[1], nv)
                    else:
                        st.mem[('heap', args[0])] = nv
                    out.append((st, Some(x)))
                else:
                    out.append((st, NONE))
            return out
        if last in ('first', 'front'):
            return [(st, Some(elem_at(v, Int(0))) if b else NONE) for st, b in eng.split_bool(s, Lt(Int(0), E.length(v)))]
        if last in ('last', 'back'):
            return [(st, Some(raw('lastof', v)) if b else NONE) for st, b in eng.split_bool(s, Lt(Int(0), E.length(v)))]
        if last in ('get', 'get_mut'):
            i = V(args[1])
            r = range_of(eng, s, i) if i.op == 'agg' else False
            if r is False:
                out = []
                for st, b in eng.split_bool(s, Lt(i, E.length(v))):
                    x = elem_at(v, i)
                    if last == 'get_mut' and args[0].op == 'ref':
                        x = raw('ref', args[0].a[0], args[0].a[1] + (('e', i),))
                    out.append((st, Some(x) if b else NONE))
                return out
            lo, hi = r
            out = []
            c = Le(lo if lo is not None else Int(0), E.length(v)) if hi is None else Le(hi, E.length(v))
            for st, b in eng.split_bool(s, c):
                x = v
                if hi is not None:
                    x = take(x, hi)
                if lo is not None:
                    x = from_(x, lo)
                out.append((st, Some(x) if b else NONE))
            return out
        if last in ('split_first', 'split_last'):
            out = []
            for st, b in eng.split_bool(s, Lt(Int(0), E.length(v))):
                if last == 'split_first':
                    x = Agg('tuple', 0, elem_at(v, Int(0)), from_(v, Int(1)))
                else:
                    x = Agg('tuple', 0, raw('lastof', v), raw('butlast', v))
                out.append((st, Some(x) if b else NONE))
            return out
        if last == 'contains':
            return [(s, has(v, V(args[1])))]
        if last == 'join' or last == 'concat':
            sep = V(args[1]) if len(args) > 1 else Str('')
            if v.op == 'vec':
                out = []
                for i, x in enumerate(v.a):
                    if i:
                        out.append(sep)
                    out.append(V(x))
                return [(s, cat(*out))]
            return [(s, app('join', v, sep))]
        if last == 'reverse':
            return [(upd(v.a[0] if v.op == 'reversed' else raw('reversed', v)), UNIT)]
        if last in ('sort', 'sort_unstable'):
            return [(upd(raw('sorted', v, 'natural')), UNIT)]
        if last == 'partition_point':
            rows = []
            for s1, x in (eng.apply(args[1], [raw('sym', '#a')], E.State(dict(s.mem), {}, ()), ctx) or []):
                for s2, b in eng.split_bool(s1, eng.val(s1, x)):
                    rows.append(('pred', b, E.fkey(s2)))
            return [(s, raw('ppoint', v, tuple(sorted(rows, key=repr))))]
        if last in ('sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
            a, b = raw('sym', '#a'), raw('sym', '#b')
            rows = []
            if 'key' in last:
                for s1, x in (eng.apply(args[1], [a], E.State(dict(s.mem), {}, ()), ctx) or []):
                    rows.append(('key', x, E.fkey(s1)))
            else:
                for s1, x in (eng.apply(args[1], [a, b], E.State(dict(s.mem), {}, ()), ctx) or []):
                    rows.append(('cmp', x, E.fkey(s1)))
            stable = 'unstable' not in last
            t = raw('sorted', v, ('by', stable, tuple(sorted(rows, key=repr))))
            return [(upd(t), UNIT)]
        if last in ('retain', 'retain_mut'):
            depth = ctx.loops
            cell = ('acc', depth, 'acc')

            def b(st, x, c):
                out = []
                for s2, w in (eng.apply(args[1], [x], st, c) or []):
                    for s3, bb in eng.split_bool(s2, eng.val(s2, w)):
                        s3 = s3.copy()
                        if bb:
                            s3.mem[cell] = push(s3.mem[cell], x)
                        out.append(('back', s3))
                return out
            r = syn_loop(eng, s, ctx, it_list(v), {'acc': raw('vec')}, b)
            out = []
            for st, _, rest in r.get('end', []):
                a = popacc(st, depth, 'acc')
                if args[0].op == 'ref':
                    eng.store(st, args[0].a[0], args[0].a[1], a)
                else:
                    st.mem[('heap', args[0])] = a
                out.append((st, UNIT))
            return out
        if last in ('truncate', 'dedup', 'remove', 'swap_remove', 'swap', 'dedup_by_key', 'dedup_by', 'rotate_left', 'rotate_right', 'fill', 'resize', 'split_off'):
            if last == 'remove':
                i = V(args[1])
                st = need(eng, s, ctx, Lt(i, E.length(v)), 'index', (v, i))
                if st is None:
                    return None
                s = st
                x = elem_at(v, i)
                st = upd(from_(v, Int(1)) if i.op == 'int' and i.a[0] == 0 else app('vec::remove', v, i))
                return [(st, x)]
            return [(upd(app('vec::' + last, v, *[V(a) for a in args[1:]])), app('vec::ret:' + last, v, *[V(a) for a in args[1:]]))]
        if last == 'copy_from_slice':
            return NotImplemented
    # ---- maps and sets
    if ismap:
        if nm.startswith('std::collections::btree_map') or nm.startswith('std::collections::hash_map'):
            if 'Entry' in nm and last in ('or_insert', 'or_insert_with', 'or_default'):
                e = V(args[0])
                if e.op == 'mentry':
                    ref, k = e.a[:2]
                    out = []
                    m = eng.load(s, ref.a[0], ref.a[1])
                    rr = raw('ref', ref.a[0], ref.a[1] + (('m', k),))
                    for st, b in eng.split_bool(s, has(m, k)):
                        st = st.copy()
                        if not b:
                            if last == 'or_insert':
                                vs = [(st, args[1])]
                            elif last == 'or_insert_with':
                                vs = eng.apply(args[1], [], st, ctx) or []
                            else:
                                t = eng.p.ty(dest_ty)
                                inner = t.get('e')
                                vs = [(st, default_deep(eng, inner))]
                            for s2, x in vs:
                                s2 = s2.copy()
                                eng.store(s2, ref.a[0], ref.a[1], mput(m, k, x))
                                out.append((s2, rr))
                        else:
                            out.append((st, rr))
                    return out
            if 'OccupiedEntry' in nm or 'VacantEntry' in nm:
                e = V(args[0])
                if e.op == 'fld' and e.a[0].op == 'mentry':
                    ref, k = e.a[0].a[:2]
                    rr = raw('ref', ref.a[0], ref.a[1] + (('m', k),))
                    m = eng.load(s, ref.a[0], ref.a[1])
                    if last in ('get_mut', 'into_mut', 'get') and 'Occupied' in nm:
                        return [(s, rr)]
                    if last in ('key', 'into_key'):
                        return [(s, k)]
                    if last == 'insert':
                        st = s.copy()
                        old = map_at(m, k)
                        eng.store(st, ref.a[0], ref.a[1], mput(m, k, args[1]))
                        return [(st, rr if 'Vacant' in nm else old)]
                return NotImplemented
            if 'Entry' in nm and last == 'and_modify':
                e = V(args[0])
                if e.op == 'mentry':
                    ref, k = e.a[:2]
                    m = eng.load(s, ref.a[0], ref.a[1])
                    out = []
                    for st, b in eng.split_bool(s, has(m, k)):
                        if b:
                            for s2, _ in (eng.apply(args[1], [raw('ref', ref.a[0], ref.a[1] + (('m', k),))], st, ctx) or []):
                                out.append((s2, e))
                        else:
                            out.append((st, e))
                    return out
        v = V(args[0])
        if last == 'entry' and args[0].op == 'ref':
            return [(s, raw('mentry', args[0], eng.deepval(s, args[1]), 'hash' if 'Hash' in nm else 'btree'))]
        if last in ('contains_key', 'contains'):
            return [(s, has(v, eng.deepval(s, args[1])))]
        if last in ('get', 'get_mut'):
            k = eng.deepval(s, args[1])
            out = []
            for st, b in eng.split_bool(s, has(v, k)):
                if not b:
                    out.append((st, NONE))
                elif last == 'get_mut' and args[0].op == 'ref':
                    out.append((st, Some(raw('ref', args[0].a[0], args[0].a[1] + (('m', k),)))))
                else:
                    out.append((st, Some(map_at(v, k) if 'Set' not in nm else k)))
            return out
        if last == 'insert':
            k = eng.deepval(s, args[1])
            x = args[2] if len(args) > 2 else UNIT
            h = has(v, k)
            st = upd(mput(v, k, x))
            if 'Set' in nm:
                return [(st, Not(h))]
            return [(s2, Some(map_at(v, k)) if b else NONE) for s2, b in eng.split_bool(st, h)]
        if last == 'remove':
            k = eng.deepval(s, args[1])
            st = upd(raw('mdel', v, k))
            if 'Set' in nm:
                return [(st, has(v, k))]
            return [(s2, Some(map_at(v, k)) if b else NONE) for s2, b in eng.split_bool(st, has(v, k))]
        if last == 'retain' and not isset(nm):
            # the entries a predicate keeps; `key != x` keeps what removing x leaves
            key = raw('mkey', v)
            rows = []
            for s2, w in (eng.apply(args[1], [key, map_at(v, key)], E.State(dict(s.mem), dict(s.facts), ()), ctx) or []):
                for s3, b in eng.split_bool(s2, eng.val(s2, w)):
                    rows.append((tuple(sorted(((k, f) for k, f in s3.facts.items() if isinstance(k, T) and s.facts.get(k) != f), key=repr)), b))
            gone = [f for f, b in rows if not b]
            if len(gone) == 1 and len(gone[0]) == 1 and gone[0][0][1] == ('=', 1) and gone[0][0][0].op == 'eq' and key in gone[0][0][0].a:
                q = gone[0][0][0]
                return [(upd(raw('mdel', v, q.a[1] if q.a[0] is key else q.a[0])), UNIT)]
            if rows and not gone:
                return [(s, UNIT)]
            return [(upd(raw('mfilter', v, tuple(rows))), UNIT)]
        if last == 'append' and args[1].op == 'ref':
            w = V(args[1])
            return [(upd(app('map::append', v, w)), UNIT)]
    # ---- indexing
    if nm in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
        v = V(args[0])
        i = V(args[1])
        mut = nm.endswith('index_mut') and args[0].op == 'ref'
        if 'Map<' in full.split(' as ')[0]:
            k = eng.deepval(s, args[1])
            st = need(eng, s, ctx, has(v, k), 'mapindex', (v, k))
            if st is None:
                return None
            return [(st, map_at(v, k))]
        r = range_of(eng, s, i) if i.op == 'agg' else False
        isst = 'for str>' in full or '<std::string::String as' in full or '<str as' in full
        if r is False:
            st = need(eng, s, ctx, Lt(i, E.length(v)), 'index', (v, i))
            if st is None:
                return None
            if mut:
                return [(st, raw('ref', args[0].a[0], args[0].a[1] + (('e', i),)))]
            return [(st, elem_at(v, i))]
        lo, hi = r
        if isst:
            eng.strslices.append((s, v, lo, hi, eng.trace(ctx)))
            return [(s, sub_str(v, lo, hi))]
        st = s
        if hi is not None:
            st = need(eng, st, ctx, Le(hi, E.length(v)), 'slice', (v, lo, hi))
            if st is None:
                return None
            if lo is not None:
                st = need(eng, st, ctx, Le(lo, hi), 'slice', (v, lo, hi))
        elif lo is not None:
            st = need(eng, st, ctx, Le(lo, E.length(v)), 'slice', (v, lo, hi))
        if st is None:
            return None
        x = v
        if hi is not None:
            x = take(x, hi)
        if lo is not None:
            x = from_(x, lo)
        return [(st, x)]
    return NotImplemented


def isset(nm):
    return 'Set' in nm


def maplen(v):
    n = 0
    return E.length(v)


def default_deep(eng, ty):
    t = eng.p.ty(ty)
    if t['k'] == 'adt' and t['name'].startswith('silverfox::'):
        if t['name'].endswith('AmountPool'):
            return Agg(t['name'], 0, raw('vec'))
    return default_of(eng, ty)
