"""Nothing is written unless everything can be read back.

In the value-flow summaries of filling and importing: on every path to a write,
each text that is written has been parsed successfully and processed (the same
term), nothing that can still reject an entry happens after a write, every
record of the importer is in the written text, and an empty movement list
writes nothing."""
from ..base import *
from .. import models
from .c01 import writers

PARSE, ASP, PROC = 'entry::Entry::parse', 'entry::Entry::as_parsable', 'account::Account::process_entry'
CHECKS = (PARSE, PROC, 'importer::CsvImporter::from_file', 'importer::CsvImporter::from_file_with_rules', 'posting::Posting::parse')


def flat(evs):
    """Events in order; events of a loop are repeated twice (second pass shows what precedes what)."""
    out = []
    for e in evs:
        if e[0] == 'loop':
            lp = E.LOOPS[e[1].a[0]]
            inner = []
            for f, u, pe in lp.parts:
                inner += flat(pe)
            out += inner + inner
        else:
            out.append(e)
    return out


def validated(facts, txt):
    for k, v in (facts.items() if isinstance(facts, dict) else facts):
        if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'app' and k.a[0].a[0] == PARSE and k.a[0].a[1] is txt:
            if fdec(facts, Eq(k, Int(0))) == 1:
                return True
    return False


def processed(evs, txt):
    for e, _, _ in events(evs):
        if e[0] == PROC and any(x.op == 'app' and x.a[0] == PARSE and x.a[1] is txt for a in e[1:-1] if isinstance(a, T) for x in walk(a)):
            return True
    return False


def all_before(st, c, x):
    """Other loops run to their end over the same elements: [[(facts, the text for its own element, events)]]"""
    out = []
    for e in st.ev:
        if e[0] != 'loop' or fdec(st.facts, raw('found', e[1])) != 0:
            continue
        lp = loop_of(e[1])
        if lp is c.lp or src_of(lp.it) != src_of(c.lp.it) or not src_of(lp.it)[1]:
            continue
        y = models.at_k(x, c.lp.depth, raw('k', lp.depth)) if lp.depth != c.lp.depth else x
        out.append([(dict(f), y, ev) for f, u, ev in lp.parts])
    return out


def run(ana, R):
    def order():
        for s in writers(ana):
            for st, v in s.outs:
                evs = flat(st.ev)
                wi = [i for i, e in enumerate(evs) if e[0] == 'io_write']
                if not wi:
                    R.ok('write-last', s.where, '%s: path without a write' % s.name)
                    continue
                late = [e for e in evs[wi[0] + 1:] if e[0] in CHECKS]
                R.check(not late, 'write-last', evline(evs[wi[0]]),
                        '%s writes %s' % (s.name, 'after every check' if not late else 'before %s at %s can still reject an entry' % (late[0][0], evline(late[0]))), facts_str(st))

    def texts():
        for s in writers(ana):
            n = 0
            for st, v in s.outs:
                for e, inloop, pf in events(st.ev):
                    if e[0] != 'io_write':
                        continue
                    n += 1
                    c = comp(e[2])
                    rows = None
                    if c is not None:
                        rows = []
                        for (f, add_), (f2, u2, ev2) in zip(c.rows, c.lp.parts):
                            rows.append((f, [x for k, x in add_ if x.op != 'str'], ev2))
                    else:
                        parts = e[2].a if e[2].op == 'cat' else (e[2],)
                        rows = [(dict(list(st.facts.items()) + list(pf)), [x for x in parts if x.op != 'str'], st.ev)]
                    for f, xs, ev in rows:
                        for x in xs:
                            if not (x.op == 'app' and x.a[0] == ASP):
                                R.unk('text-read-back', evline(e), 'written text %s' % pp(x))
                                continue
                            ok = validated(f, x) or validated(st.facts, x)
                            lps = [] if c is None else all_before(st, c, x)
                            if not ok and lps and any(all(validated(g, y) for g, y, _ in q) for q in lps):
                                ok = True
                            elsewhere = any(ee[0] == PARSE and ee[1] is not x for ee, _, _ in events(st.ev))
                            if ok:
                                R.ok('text-read-back', evline(e), '%s: what is written has been parsed' % s.name)
                            elif not any(ee[0] == PARSE for ee, _, _ in events(st.ev)) :
                                R.bad('text-read-back', evline(e), '%s writes entries that were never read back' % s.name, facts_str(st))
                            elif c is None or lps or any(ee[0] == PARSE and ee[1] is x for ee, _, _ in events(ev)):
                                R.bad('text-read-back', evline(e), '%s writes an entry although reading it back may have failed' % s.name, fstr(f))
                            elif elsewhere:
                                # another loop over the same elements may validate them all before
                                R.unk('text-read-back', evline(e), 'validation not related to the written text')
                            p = processed(ev, x) or processed(st.ev, x) or any(all(processed(h, y) for g, y, h in q) for q in lps)
                            if ok:
                                R.check(p, 'text-processed', evline(e), '%s: what is written has been processed by the accounts' % s.name, facts_str(st))
            if n == 0:
                R.unk('text-read-back', s.where, '%s: no write found' % s.name)

    def complete():
        s = ana.summ('ledger::Ledger::import_csv', inline=('ledger::Ledger::import_csv',))
        for st, v in s.outs:
            for e, inloop, pf in events(st.ev):
                if e[0] != 'io_write':
                    continue
                c = comp(e[2])
                if c is None:
                    R.unk('all-records', evline(e), 'written text is not built record by record')
                    continue
                for f, add_ in c.rows:
                    R.check(any(x.op == 'app' and x.a[0] == ASP for k, x in add_), 'all-records', evline(e),
                            'each collected entry is in the written text', fstr(f))
                src, whole = c.src
                c2 = comp(src)
                if c2 is None:
                    if src.op in ('sorted', 'reversed', 'dedup') and comp(src.a[0]) is not None:
                        R.bad('all-records', evline(e), 'the records are not written in the order they have in the file, once each (%s)' % src.op, facts_str(st))
                        continue
                    if src.op == 'loopval' and loop_of(src.a[0]).it is not None and any(is_importer(y) for y in walk(loop_of(src.a[0]).it)):
                        lp = loop_of(src.a[0])
                        ph = raw('phi', lp.depth, src.a[1])
                        ups = [dict(u).get(src.a[1], ph) for f, u, ev in lp.parts]
                        if any(y.op == 'concat' and len(y.a) == 2 and y.a[1] is ph and y.a[0].op == 'vec' and y.a[0].a for y in ups):
                            R.bad('all-records', evline(e), 'each record is put before those above it', facts_str(st))
                            continue
                    ok = is_importer(src)
                    (R.ok if ok else R.unk)('all-records', evline(e), 'source of the written entries: %s' % pp(src))
                    continue
                isrc, whole2 = c2.src
                if not is_importer(isrc):
                    R.unk('all-records', evline(e), 'records from %s' % pp(isrc))
                    continue
                if fdec(st.facts, raw('found', raw('loop', c2.term.a[0].a[0]))) not in (0, None):
                    R.bad('all-records', evline(e), 'entries are written after leaving the record loop early', facts_str(st))
                el = None
                for f, add_ in c2.rows:
                    a = [x for k, x in add_]
                    g = [k for k, _ in f if isinstance(k, T) and k.op != 'more']
                    if len(a) == 1 and a[0].op == 'fld' and str(a[0].a[1]).startswith('Ok'):
                        R.ok('all-records', evline(e), 'each record becomes an appended entry')
                    elif not a:
                        R.bad('all-records', '%s:%s' % c2.lp.where, 'a record is left out of the import when %s' % '; '.join(fstr(f)), fstr(f))
                    elif len(a) > 1:
                        R.bad('all-records', '%s:%s' % c2.lp.where, 'a record is appended more than once', fstr(f))
                    else:
                        R.ok('all-records', evline(e), 'each record becomes an appended entry')

    def nothing():
        s = ana.summ('ledger::Ledger::fill_envelopes', inline=('ledger::Ledger::fill_envelopes',))
        for st, v in s.outs:
            ws = [e for e, _, _ in events(st.ev) if e[0] in ('io_write', 'open')]
            ent = [x for e, _, _ in events(st.ev) if e[0] == ASP for x in [e[1]]]
            if not ws:
                continue
            for x in ent[:1]:
                if x.op != 'agg':
                    raise Unknown('generated entry %s' % pp(x))
                fs = ana.adt('entry::Entry')['variants'][0]['fields']
                ps = x.a[2 + fs.index('postings')]
                c = comp(ps)
                d = fdec(st.facts, Eq(raw('len', ps), Int(0)))
                if d is None and related(st, raw('len', ps)):
                    d = 2
                if d is None and c is not None:
                    srcs = [c.src[0]]
                    if any(fdec(st.facts, Eq(raw('len', y), Int(0))) is not None for y in srcs):
                        R.bad('no-empty-entry', evline(ws[0]), 'an entry without postings is written when every movement is zero', facts_str(st))
                        continue
                if d == 2:
                    R.unk('no-empty-entry', evline(ws[0]), 'condition not recognised')
                    continue
                R.check(d == 0, 'no-empty-entry', evline(ws[0]), 'the generated entry has postings on every path that writes it', facts_str(st))
                if c is None:
                    R.unk('no-zero-movement', evline(ws[0]), 'postings %s' % pp(ps))
                    continue
                for f, add_ in c.rows:
                    for k, y in add_:
                        if k != 'elem':
                            if not getattr(R, '_zm', None):
                                R.bad('no-zero-movement', '%s:%s' % c.lp.where, 'movements are written without leaving out the zero ones', fstr(f))
                            continue
                        mags = [z for z in walk_facts(f) if z.op == 'fld' and z.a[1] == 'mag' and any(w is y for w in walk(z))]
                        nz = any(fdec(f, Eq(z, Int(0))) == 0 for z in mags)
                        if nz:
                            R.ok('no-zero-movement', '%s:%s' % c.lp.where, 'only nonzero movements are written')
                        elif not mags or any(fdec(f, Eq(z, Int(0))) == 1 for z in mags):
                            R.bad('no-zero-movement', '%s:%s' % c.lp.where, 'a zero movement is written', fstr(f))
                        elif len(mags) == 1 and zero_fits(f, mags[0]):
                            R.bad('no-zero-movement', '%s:%s' % c.lp.where, 'a zero movement is written', fstr(f))
                        else:
                            R.unk('no-zero-movement', '%s:%s' % c.lp.where, '; '.join(fstr(f)))

    R.section('write-last', order)
    R.section('text-read-back', texts)
    R.section('all-records', complete)
    R.section('no-zero-movement', nothing)


def zero_fits(f, mag):
    """Everything known of the magnitude compares it with numbers, and nothing of that excludes zero."""
    s = E.State()
    if not E.assume(s, Eq(mag, Int(0)), 1):
        return False
    for k, v in f:
        if isinstance(k, T) and any(y is mag for y in walk(k)):
            if k.op not in ('lt', 'eq', 'le') or v[0] != '=' or any(y.op not in ('lt', 'eq', 'le', 'lin', 'int', 'num', 'abs') and y is not mag
                                                                  for y in heads(k, mag)):
                return False
            z = subst(k, lambda y: Int(0) if y is mag else None, {})
            d = z.a[0] if z.op == 'int' else E.decide(E.State(), z)
            if d is None or d != v[1]:
                return False
    return True


def heads(t, stop):
    yield t
    if t is not stop:
        for x in t.a:
            if isinstance(x, T):
                yield from heads(x, stop)


def walk_facts(f):
    seen = set()
    for k, v in f:
        if isinstance(k, T):
            yield from walk(k, seen)


def is_importer(t):
    return any(x.op == 'app' and x.a[0].startswith('importer::CsvImporter::from_file') for x in walk(t))
