"""C06: a minimal sample draws exactly what the targets need."""
from sims_pars.fn import sample_minimally
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, stub_network, values, needed

ABC = 'dbfahcegji'
BOUNDS = 'networks over n variables of any kind with any parents and arbitrary definitions, any targets, any given values'
OUTSIDE = 'more variables; given or targeted names which are not variables; non-numeric values other than None'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']


def sampling(S, names, order, frozen, sources, kind):
    bn, w = stub_network(S, names, order, complete=frozen)
    x = values(S, names)
    cond = {}
    for n in order:
        if S.bool('given_' + n):
            cond[n] = x[n]
            if S.bool('none_' + n):
                cond[n] = None
    before = dict(cond)
    targets = S.subset('t_', order)
    arg = targets if kind == 'list' else set(targets)
    need = needed(S, w, targets, before)
    missing = S.or_(*[S.and_(w.kind[n] == EXO, need[n], n not in before) for n in names])
    failed = False
    sinks, med = None, None
    try:
        if sources:
            sinks, med = sample_minimally(bn, arg, cond)
        else:
            sinks = sample_minimally(bn, arg, cond, sources=False)
    except ValueError:
        failed = True
    S.prove(S.iff(failed, missing), 'ValueError exactly when a needed exogenous variable is not given')
    S.prove(S.same(cond, before), "the caller's mapping is unchanged")
    if failed:
        S.reach('exogenous variable missing')
    else:
        S.reach('sampled')
        S.prove(S.same(set(sinks), set(targets)), 'exactly the targets are returned')
        full = dict(sinks)
        if sources:
            want = {n for n in names if S.and_(S.or_(need[n], n in before), n not in targets)}
            S.prove(S.same(set(med), want), 'the mediators are the other drawn or given variables')
            full.update(med)
        for n in names:
            if n in before:
                S.prove(w.drawn[n] == 0, 'given variables are not drawn')
                if n in full:
                    S.prove(S.same(full[n], before[n]), 'given values are kept')
            elif need[n]:
                S.prove(w.drawn[n] == 1, 'needed variables are drawn once')
                if sources:
                    S.prove(S.close(full[n], w.value(n, full)), 'values agree with the parents in the same sample')
            else:
                S.prove(w.drawn[n] == 0, 'only what is needed is drawn')


def units(tier):
    n = 6 if tier == 'quick' else 9
    names = list(ABC[:n])
    b = 'any network over %s, any conditions and targets' % ''.join(names)
    us = []
    for k in (0, 1, 2):
        for frozen in (True, False):
            us.append(Unit('targets and mediators, order %d%s' % (k, ', frozen' if frozen else ''), sampling,
                           (names, scramble(names, k), frozen, True, 'list'), ['sampled', 'exogenous variable missing'], b))
        us.append(Unit('targets only, order %d' % k, sampling, (names, scramble(names, k), True, False, 'set'),
                       ['sampled', 'exogenous variable missing'], b))
    return us
