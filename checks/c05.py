"""C05: a full sample is complete, consistent and respects conditions."""
from sims_pars.fn import sample
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, stub_network, values

ABC = 'dbfahcegji'
BOUNDS = 'networks over n variables of any kind with any parents and arbitrary definitions, any given values, also for unknown names'
OUTSIDE = 'more variables; non-numeric values other than None; pseudo variables (never computable)'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']


def sampling(S, names, order, frozen, none):
    bn, w = stub_network(S, names, order, complete=frozen)
    x = values(S, names + ['extra'])
    cond = {}
    for n in order:
        if S.bool('given_' + n):
            cond[n] = x[n]
            if S.bool('none_' + n):
                cond[n] = None
    if S.bool('given_extra'):
        cond['extra'] = x['extra']
    before = dict(cond)
    if none:
        S.assume(len(cond) == 0)
    missing = S.or_(*[S.and_(w.kind[n] == EXO, n not in cond) for n in names])
    failed = False
    res = None
    try:
        if none:
            res = sample(bn)
        else:
            res = sample(bn, cond)
    except ValueError:
        failed = True
    S.prove(S.iff(failed, missing), 'ValueError exactly when an exogenous variable is not given')
    S.prove(S.same(cond, before), "the caller's mapping is unchanged")
    if failed:
        S.reach('exogenous variable missing')
    else:
        S.reach('sampled')
        S.prove(S.same(set(res), set(names) | set(before)), 'every variable has a value, extra keys are carried through')
        S.prove(res is not cond, 'the result is a new mapping')
        for n in names:
            if n in before:
                S.prove(S.same(res[n], before[n]), 'given values are kept')
                S.prove(w.drawn[n] == 0, 'given variables are not drawn')
            else:
                S.prove(S.close(res[n], w.value(n, res)), 'values agree with the parents in the same sample')
                S.prove(w.drawn[n] == 1, 'drawn exactly once')
        if 'extra' in before:
            S.prove(S.close(res['extra'], x['extra']), 'extra keys keep their values')


def units(tier):
    n = 6 if tier == 'quick' else 9
    names = list(ABC[:n])
    b = 'any network over %s, any conditions' % ''.join(names)
    us = []
    for k in (0, 1, 2):
        for frozen in (True, False):
            us.append(Unit('sample, order %d%s' % (k, ', frozen' if frozen else ''), sampling, (names, scramble(names, k), frozen, False),
                           ['sampled', 'exogenous variable missing'], b))
        us.append(Unit('sample without conditions, order %d' % k, sampling, (names, scramble(names, k), True, True),
                       ['sampled', 'exogenous variable missing'], b))
    return us
