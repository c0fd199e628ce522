"""Shared machinery of the rules: summaries, call graph, partition oracle, report."""
import re
from .terms import *
from . import terms as TM
from . import engine as E

# Functions other modules rely on: each is analysed by itself and stays an
# uninterpreted application in the summaries of its callers.
API = [
    'ledger::Ledger::from_file', 'ledger::Ledger::fill_envelopes', 'ledger::Ledger::import_csv',
    'ledger::Ledger::display_flat_balance', 'ledger::Ledger::display_envelopes', 'ledger::Ledger::display_register',
    'entry::Entry::parse', 'entry::Entry::as_parsable', 'entry::Entry::get_blank_amount', 'entry::Entry::as_full_string',
    'entry::Entry::as_register_data', 'entry::Entry::has_mixed_currencies',
    'posting::Posting::parse', 'posting::Posting::as_parsable',
    'account::Account::parse', 'account::Account::process_entry', 'account::Account::get_filling_postings',
    'account::Account::display_envelopes', 'account::Account::get_available_value',
    'envelope::Envelope::parse', 'envelope::Envelope::process_entry', 'envelope::Envelope::get_filling_posting',
    'envelope::Envelope::get_next_due_date', 'envelope::Frequency::parse', 'envelope::Frequency::get_next_due_date',
    'envelope::Frequency::get_last_due_date', 'envelope::Frequency::next_date_by_day_of_month', 'amount::Amount::parse',
    'importer::CsvImporter::from_file', 'importer::CsvImporter::from_file_with_rules', 'importer::Rules::from_str',
    'ledger::register::Register::display', 'utils::remove_comments',
]


class Missing(Exception):
    """An anchor the rule needs is not there (any more): nothing can be concluded."""


class Unknown(Exception):
    """The summary has a shape the rule cannot interpret."""


def own_param(t):
    while t.op in ('discr', 'fld'):
        t = t.a[0]
    return t.op == 'sym' and t.a[0][0] == 'P' and t.a[0][1:].isdigit()


class Summ:
    def __init__(self, inst, args, outs, eng):
        self.inst, self.args, self.outs, self.eng = inst, args, outs, eng
        self.panics, self.diverge = eng.panics, eng.diverge

    @property
    def where(self):
        return '%s:%d' % (self.inst['file'], self.inst['line'])

    @property
    def name(self):
        return self.inst['name'].replace('silverfox::', '')


FACTOR = [1]     # of the state budgets: 10 in the thorough tier


class Ana:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.fns = set()
        self.nparts = 0

    # ---------------------------------------------------------------- anchors
    def fn(self, name):
        f = self.p.find(name) if not name.startswith('<') else [i for i in self.p.local if i['name'].replace('silverfox::', '') == name]
        if len(f) != 1:
            raise Missing('function %s (%d found)' % (name, len(f)))
        return f[0]

    def adt(self, name):
        a = self.p.adts.get('silverfox::' + name)
        if not a:
            raise Missing('type ' + name)
        return a

    def need_fields(self, name, *fields):
        a = self.adt(name)
        fs = a['variants'][0]['fields']
        for f in fields:
            if f not in fs:
                raise Missing('field %s of %s' % (f, name))

    # ---------------------------------------------------------------- summaries
    def summ(self, name, inline=(), opaque=(), args=None, models=None, api=True, facts=None, limit=150000, key=None):
        """Summary of a function: `opaque` (+ the API unless in `inline`) calls stay
        uninterpreted, everything else is inlined."""
        inst = self.fn(name) if isinstance(name, str) else name
        k = (inst['id'], tuple(inline), tuple(opaque), api, key)
        if args is None and facts is None and k in self.cache:
            E.DOM.update(self.cache[k].dom)
            return self.cache[k]
        # parameters are called the same in every function, but are of other types
        for t in [t for t in E.DOM if own_param(t)]:
            del E.DOM[t]
        opq = set(x for x in (API if api else []) if not any(x.endswith(i) for i in inline))
        extra = tuple(opaque)

        def is_opaque(i, ctx):
            n = i['name'].replace('silverfox::', '')
            if n in opq:
                return True
            return any(n == o or n.endswith('::' + o) or (o.startswith('<') and n == o) for o in extra)
        eng = E.Engine(self.p, opaque=is_opaque, max_states=limit * FACTOR[0], models=models)
        st = E.State()
        if facts:
            st.facts.update(facts)
        a = list(args) if args is not None else []
        given = len(a)
        for i in range(inst['body']['argc']):
            if i < given and a[i] is not None:
                continue
            t = self.p.ty(inst['body']['locals'][i + 1])
            s = Sym('P%d' % i)
            if t['k'] == 'ref' and t.get('mut'):
                cell = ('arg', i)
                st.mem[cell] = s
                s = raw('ref', cell, ())
            if i < given:
                a[i] = s
            else:
                a.append(s)
        try:
            outs = eng.run(inst, a, st, E.Ctx())
        except E.Budget as e:
            raise Unknown('%s: analysis budget (%s)' % (inst['name'], e))
        except RecursionError:
            raise Unknown('%s: recursion' % inst['name'])
        r = Summ(inst, a, outs, eng)
        r.dom = {t: x for t, x in E.DOM.items() if own_param(t)}
        self.fns.update(eng.visited)
        self.nparts += len(outs)
        if args is None and facts is None:
            self.cache[k] = r
        return r

    def mem(self, s, i):
        return s.mem.get(('arg', i))

    # ---------------------------------------------------------------- call graph
    def calls(self, inst):
        """(name, inst or None, line, terminator) of every call in a body."""
        out = []
        for b in inst['body']['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'k':
                ty = self.p.ty(t[1][1]['t'])
                if ty['k'] == 'fndef':
                    iid = ty.get('inst')
                    out.append((ty['name'], self.p.insts.get(iid), b['l'], t))
        return out

    def refs(self, inst):
        """Instances mentioned anywhere in a body (calls, fn items, closures)."""
        c = getattr(self, '_refs', None)
        if c is None:
            c = self._refs = {}
        if inst['id'] in c:
            return c[inst['id']]
        ids = set()

        def ty(n):
            t = self.p.ty(n)
            if t['k'] in ('fndef', 'closure') and t.get('inst') is not None:
                ids.add(t['inst'])
        for n in inst['body']['locals']:
            ty(n)

        def scan(x):
            if isinstance(x, dict):
                if 't' in x and isinstance(x['t'], int):
                    ty(x['t'])
                for v in x.values():
                    scan(v)
                if 'fnptr' in x and isinstance(x['fnptr'], int):
                    ids.add(x['fnptr'])
            elif isinstance(x, list):
                for v in x:
                    scan(v)
        for b in inst['body']['blocks']:
            scan(b['s'])
            scan(b['t'])
        c[inst['id']] = ids
        return ids

    def reach(self, *roots):
        """Instances reachable through the call graph (bodies that were dumped)."""
        seen, st = {}, [(r['id'], None) for r in roots]
        while st:
            i, par = st.pop()
            if i in seen:
                continue
            seen[i] = par
            inst = self.p.insts.get(i)
            if inst is None or not inst['body']:
                continue
            for j in self.refs(inst):
                if j not in seen:
                    st.append((j, i))
        return seen

    def chain(self, seen, i):
        out = []
        while i is not None:
            inst = self.p.insts.get(i)
            if inst is not None and inst['local']:
                out.append(inst['name'].replace('silverfox::', ''))
            i = seen.get(i)
        return list(reversed(out))

    # ---------------------------------------------------------------- field writes
    def field_writes(self, adt, field):
        """Bodies that assign the field of an existing value, or build the struct:
        [(inst, line, kind)] with kind 'assign' | 'build' | 'borrow'."""
        full = 'silverfox::' + adt
        a = self.p.adts.get(full)
        if not a or field not in a['variants'][0]['fields']:
            raise Missing('field %s of %s' % (field, adt))
        idx = a['variants'][0]['fields'].index(field)
        out = []
        for inst in self.p.local:
            for b in inst['body']['blocks']:
                for st in b['s']:
                    if st[0] != '=':
                        continue
                    if self._proj_hits(inst, st[1], full, idx):
                        out.append((inst, st[3], 'assign'))
                    rv = st[2]
                    if rv[0] == 'ref' and rv[1] and self._proj_hits(inst, rv[2], full, idx):
                        out.append((inst, st[3], 'borrow'))
                    if rv[0] == 'agg' and rv[1] == 'adt' and rv[3] == full:
                        out.append((inst, st[3], 'build'))
                t = b['t']
                if t[0] == 'call' and self._proj_hits(inst, t[3], full, idx):
                    out.append((inst, b['l'], 'assign'))
        return out

    def _proj_hits(self, inst, pl, full, idx):
        loc, proj = pl
        ty = inst['body']['locals'][loc]
        for e in proj:
            t = self.p.ty(ty) if ty is not None else {'k': '?'}
            if e == '*':
                ty = t.get('e') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' and t.get('args') else ty)
            elif e[0] == 'f':
                if t['k'] == 'adt' and t['name'] == full and e[1] == idx:
                    return True
                ty = e[2]
            elif e[0] == 'o':
                ty = e[1]
            elif e[0] in ('i', 'ci'):
                ty = t.get('e')
        return False


# ------------------------------------------------------------------ partitions
class Oracle:
    def __init__(self, state, choices):
        self.s = state.copy()
        self.ch = choices
        self.n = 0
        self.asked = []
        self.open = False

    def __call__(self, atom):
        neg = False
        while atom.op == 'not':
            atom, neg = atom.a[0], not neg
        d = E.decide(self.s, atom)
        if d is None:
            if self.n < len(self.ch):
                v = self.ch[self.n]
            else:
                v = 1
                self.open = True
                self.ch = self.ch + [1]
            self.n += 1
            if not E.assume(self.s, atom, v):
                raise Infeasible()
            self.asked.append((atom, v))
            d = v
        return bool(d) != neg


class Infeasible(Exception):
    pass


def outcomes(state, spec):
    """Expected outcomes of the specification in a partition, case-split over
    the specification's conditions the partition leaves open:
    [(expected, [(open atom, value)], state)]"""
    out = []
    todo = [[]]
    n = 0
    while todo:
        ch = todo.pop()
        n += 1
        if n > 512:
            raise Unknown('too many open conditions')
        o = Oracle(state, list(ch))
        try:
            r = spec(o)
        except Infeasible:
            r = None
        for i in range(len(ch), len(o.ch)):
            todo.append(o.ch[:i] + [0])
        if r is not None:
            out.append((r, o.asked, o.s))
    return out


def cores(atom):
    """What a condition is about: its non-constant operands."""
    if atom.op in ('eq', 'lt', 'not', 'discr', 'has', 'lin', 'abs', 'len'):
        out = set()
        xs = [k for k, _ in atom.a[1]] if atom.op == 'lin' else [x for x in atom.a if isinstance(x, T)]
        for x in xs:
            if x.op not in ('int', 'num', 'str'):
                out |= cores(x)
        if atom.op == 'has':
            out = cores(atom.a[1])
        return out or {atom}
    return {atom}


def related(state, atom, known=()):
    """Facts of the partition, other than the known ones, about the same things
    as an undecided atom: the partition may decide it in a form not recognised."""
    cs = cores(atom)
    out = []
    for k in state.facts:
        if not isinstance(k, T) or k in known:
            continue
        if any(x in cs for x in walk(k)):
            out.append(k)
    return out


def facts_str(s, n=14):
    out = []
    for k, v in list(s.facts.items())[:n]:
        if isinstance(k, T):
            out.append('%s %s %s' % (pp(k, 5), v[0], pp(v[1]) if isinstance(v[1], T) else (sorted(map(str, v[1])) if isinstance(v[1], frozenset) else v[1])))
    return out


def events(ev, depth=0):
    """Events with those inside loops: (event, in_loop, part facts)"""
    for e in ev:
        if e[0] == 'loop':
            lp = E.LOOPS[e[1].a[0]]
            for f, u, pe in lp.parts:
                for x in events(pe, depth + 1):
                    yield (x[0], True, x[2] | f)
        else:
            yield (e, False, frozenset())


def loop_of(t):
    """Loop object of a `loop` term."""
    return E.LOOPS[t.a[0]]


def loops_in(t):
    return [x for x in walk(t) if x.op == 'loop']


def is_ok(v):
    return v.op == 'agg' and v.a[0] == RES and v.a[1] == 0


def is_err(v):
    return v.op == 'agg' and v.a[0] == RES and v.a[1] == 1


def evline(e):
    l = e[-1]
    if isinstance(l, tuple) and len(l) == 2:
        return '%s:%s' % l
    return '?'


# ------------------------------------------------------------------ report
class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []        # (rule, status, where, what)

    def ok(self, rule, where, what=''):
        self.obl.append((rule, 'held', where, what))

    def bad(self, rule, where, what, facts=()):
        self.obl.append((rule, 'violated', where, what, list(facts)))

    def unk(self, rule, where, what):
        self.obl.append((rule, 'inconclusive', where, what))

    def check(self, cond, rule, where, what, facts=()):
        if cond:
            self.ok(rule, where, what)
        else:
            self.bad(rule, where, what, facts)
        return cond

    def section(self, rule, fn):
        """Run one rule; what it cannot interpret is inconclusive, never an alarm."""
        try:
            fn()
        except (Missing, Unknown) as e:
            self.unk(rule, '-', str(e))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(rule, '-', 'rule could not interpret the summary: %s %s (%s:%d)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))

    def counts(self):
        c = {'held': 0, 'violated': 0, 'inconclusive': 0}
        for o in self.obl:
            c[o[1]] += 1
        return c


# ------------------------------------------------------------------ lists built by loops
class Comp:
    """A list (or text) built by a loop: what each partition of an iteration adds."""
    def __init__(self, lp, term, init, rows, src):
        self.lp, self.term, self.init, self.rows, self.src = lp, term, init, rows, src


def src_of(it):
    """What a loop runs over: (list term, whole?)"""
    if it is None:
        return None, False
    e = False
    while isinstance(it, T) and (it.op in ('ilam', 'imap', 'icloned', 'iinspect', 'ienum') or it.op == 'ifilter' and not e):
        # what a filter rejects is among the cases of the loop
        e |= it.op == 'ienum'
        it = it.a[0]
    if isinstance(it, T) and it.op == 'it':
        return it.a[0], it.a[1] == 0 or (isinstance(it.a[1], T) and num(it.a[1]) == 0)
    return it, True


def comp(t):
    """loopval list -> Comp with rows (facts, [('elem', x) | ('many', list)]) or None."""
    if t.op != 'loopval':
        return None
    lp = loop_of(t.a[0])
    init = dict(lp.inits).get(t.a[1])
    if init is None:
        return None
    phi = raw('phi', lp.depth, t.a[1])
    rows = []
    for f, u, ev in lp.parts:
        x = dict(u).get(t.a[1], phi)
        add_ = []
        while x is not phi:
            if x.op == 'push':
                add_.append(('elem', x.a[1]))
                x = x.a[0]
            elif x.op == 'concat':
                add_.append(('many', x.a[1]))
                x = x.a[0]
            elif x.op == 'cat' and x.a[0] is phi:
                add_.extend(('text', y) for y in reversed(x.a[1:]))
                x = phi
            else:
                return None
        rows.append((f, list(reversed(add_))))
    return Comp(lp, t, init, rows, src_of(lp.it))


class FS:
    """State-like view of a part's facts."""
    def __init__(self, facts):
        self.facts = dict(facts)

    def copy(self):
        return FS(self.facts)


def fdec(facts, atom):
    """Value of an atom under a part's facts."""
    s = E.State()
    for k, v in (facts.items() if isinstance(facts, dict) else facts):
        s.facts[k] = v
    return E.decide(s, atom)


def fstate(facts):
    s = E.State()
    for k, v in (facts.items() if isinstance(facts, dict) else facts):
        s.facts[k] = v
    return s


def fstr(facts, n=10):
    return facts_str(fstate(facts), n)


# ------------------------------------------------------------------ membership
def search_of(found):
    """`found(loop)`: what the loop searches for -> (source list, [atoms an element must
    NOT satisfy to go on], loop) when the loop only looks, or None."""
    if found.op != 'found':
        return None
    lp = loop_of(found.a[0])
    if len(lp.parts) != 1 or lp.parts[0][1] or lp.inits:
        return None
    f, u, ev = lp.parts[0]
    atoms = [(k, v) for k, v in f if isinstance(k, T) and k.op != 'more']
    src, whole = src_of(lp.it)
    if src is None or not whole:
        return None
    return src, atoms, lp


def memberships(facts):
    """What is known about membership: [(set, element, value, term)] from lookups and
    from searches for an equal element; and the searches by anything else."""
    out, other = [], []
    for k, v in list(facts.items() if isinstance(facts, dict) else facts):
        if not isinstance(k, T):
            continue
        if k.op == 'has':
            out.append((k.a[0], k.a[1], fdec(facts, k), k))
        elif k.op == 'found':
            r = search_of(k)
            if r is None:
                other.append((k, None, None))
                continue
            src, atoms, lp = r
            while src.op in ('keys', 'list', 'setof'):
                src = src.a[0]
            if len(atoms) == 1 and atoms[0][0].op == 'eq':
                a, b = atoms[0][0].a
                el = [x for x in (a, b) if any(y.op == 'k' and y.a[0] == lp.depth for y in walk(x))]
                ot = [x for x in (a, b) if x not in el]
                if len(el) == 1 and el[0].op == 'elem' and el[0].a[1].op == 'k':
                    out.append((src, ot[0], fdec(facts, k), k))
                    continue
            other.append((k, src, atoms))
    return out, other


def payload(o):
    """Content of an Option that is Some."""
    return o.a[2] if o.op == 'agg' and o.a[0] == OPT and o.a[1] == 1 else raw('fld', o, 'Some.0')


def payload_ok(o):
    return o.a[2] if o.op == 'agg' and o.a[0] == RES and o.a[1] == 0 else raw('fld', o, 'Ok.0')


def fcall(n, *args):
    return raw('app', n, *args)


def spot_only(facts, lst):
    """True when what the facts say about a list concerns only its length or single elements at its ends,
    and the list may have others."""
    seen = False

    def look(t):
        if t is lst:
            return False
        if t.op == 'len' and t.a[0] is lst or t.op == 'lastof' and t.a[0] is lst or t.op == 'elem' and t.a[0] is lst and t.a[1].op == 'int':
            return True
        return all(look(x) for x in t.a if isinstance(x, T))
    for k in facts:
        if isinstance(k, T) and any(y is lst for y in walk(k)):
            if k.op == 'found' or not look(k):
                return False
            seen = True
    if not seen:
        return False
    n = raw('len', lst)
    return fdec(facts, Eq(n, Int(0))) != 1 and fdec(facts, Lt(Int(0), n)) != 0 and fdec(facts, Eq(n, Int(1))) != 1


CHANGES = ('replace', 'replacen', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'repeat')


def altered(x, src):
    """x is src changed by a function that changes text, and by nothing else"""
    if not isinstance(x, T) or x is src:
        return False
    n = x.a[0].split('::')[-1] if x.op == 'app' and isinstance(x.a[0], str) else x.op
    if n in CHANGES:
        a = [y for y in x.a if isinstance(y, T)]
        return bool(a) and (a[0] is src or altered(a[0], src)) and all(y.op in ('str', 'int', 'num') for y in a[1:])
    if n in ('trim', 'trim_start', 'trim_end'):
        a = [y for y in x.a if isinstance(y, T)]
        return altered(a[0], src)
    return False
