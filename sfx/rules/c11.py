"""Envelope postings never move real money.

In every loop that adds postings to a total (balances of all accounts, the value
of one account, the amount of a register line), each row is compared with what
the posting ought to contribute: nothing for an envelope posting or one to
another account, its amount for an ordinary one. Every total is shown."""
from ..base import *
from ..acc import *
from .. import moves, pools


def run(ana, R):
    def go(f, rule):
        return lambda: f(ana, moves.Judge(ana, R, ('envelope', 'amount'), rule))
    R.section('balances', go(moves.totals, 'balances'))
    R.section('accounts', go(moves.real_value, 'accounts'))
    R.section('register', go(moves.register, 'register'))

    def shown():
        P = 'ledger::Ledger::display_flat_balance'
        T_ = 'ledger::Ledger::get_totals'
        s = ana.summ(P, inline=(P,), opaque=(T_,), models=pools.models(), key='pools')
        tot = raw('fld', fcall(T_, Sym('P0')), 'Ok.0')
        for st, v in s.outs:
            if not is_ok(v):
                continue
            n = 0
            for x in st.ev:
                if x[0] != 'loop':
                    continue
                lp = loop_of(x[1])
                if lp.it is None or not contains(lp.it, lambda y: y is tot):
                    continue
                n += 1
                l, start, exact = base_it(lp.it)
                if leaves_out(lp.it) or cut_short(st, x[1]):
                    R.bad('shown', s.where, 'not every balance is shown', facts_str(st))
                    continue
                bykey = l is not None and base(l) is raw('keys', tot)
                if l is None or start != 0 or not exact or base(l).op != 'entries' and base(l) is not tot and not bykey:
                    R.unk('shown', s.where, 'loop over ' + pp(lp.it)[:80])
                    continue
                el = E.elem_of(l, raw('k', lp.depth))
                for f, u, ev in lp.parts:
                    pr = [y for y, _, _ in events(ev) if y[0] == 'print']
                    cond = [k for k, _ in f if isinstance(k, T) and k.op != 'more']
                    txt = [z for y in pr for z in walk(y[1])]
                    if bykey:
                        names = [z for z in txt if z is el]
                        vals = [z for z in txt if z.op == 'show' and z.a[-1] is raw('at', tot, el)]
                    else:
                        names = [z for z in txt if z.op == 'fld' and z.a[0] is el and z.a[1] in ('0', 0)]
                        vals = [z for z in txt if z.op == 'show' and z.a[-1].op == 'fld' and z.a[-1].a[0] is el and z.a[-1].a[1] in ('1', 1)]
                    if names and vals:
                        R.ok('shown', s.where, 'each account is shown with its total')
                    elif cond:
                        R.unk('shown', s.where, 'left out under ' + pp(cond[0])[:80])
                    elif not pr:
                        R.bad('shown', s.where, 'a balance is not shown', fstr(f))
                    else:
                        R.unk('shown', s.where, 'text not recognised: ' + pp(pr[0][1])[:80])
            if not n:
                R.unk('shown', s.where, 'no loop over the totals')

    def base(l):
        while l.op in ('sorted', 'reversed', 'list'):
            l = l.a[0]
        return l
    R.section('shown', shown)
