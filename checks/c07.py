"""C07: the joint log prior is the sum of conditional log densities."""
import math
from sims_pars.fn import evaluate_nodes, sample_chromosome
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, stub_network, values

ABC = 'dbfahcegji'
BOUNDS = 'networks over n variables of any kind, links and definitions; any part of them assigned any values; densities of any value, NaN and infinities'
OUTSIDE = 'more variables; random variables assigned without their parents (undefined); pseudo variables; non-numeric values'
ASSUMPTIONS = ['log densities are arbitrary functions of the value and the values of the parents; a draw is such a function whose noise is fixed']


def flags(S, w):
    for n in w.names:
        w.flag[n] = S.int('flag_' + n, 0, 3)
        w.invalid[n] = S.bool('invalid_' + n)


def total(S, w, pars):
    """the sum of the log densities (as a list of terms, so that the oracle does not depend on the order)"""
    t = 0
    undefined = False
    for n in w.names:
        if S.and_(n in pars, w.kind[n] == RV):
            if w.invalid[n]:
                d = -math.inf
            else:
                d = w.density(n, pars)
            t = t + d
    if S.isnan(t):
        t = -math.inf
    return t


def joint(S, names, order, frozen):
    bn, w = stub_network(S, names, order, complete=frozen)
    x = values(S, names + ['extra'])
    flags(S, w)
    pars = {}
    for n in order[1:] + order[:1]:
        if S.bool('has_' + n):
            pars[n] = x[n]
    if S.bool('has_extra'):
        pars['extra'] = x['extra']
    for n in names:
        for m in names:
            S.assume(S.implies(S.and_(n in pars, w.kind[n] == RV, w.link[m, n]), m in pars))
    before = dict(pars)
    r = evaluate_nodes(bn, pars)
    S.reach('evaluated')
    S.prove(S.not_(S.isnan(r)), 'the joint log prior is not NaN')
    S.prove(S.close(r, total(S, w, pars)), 'sum of the log densities at the values of the parents')
    S.prove(S.same(pars, before), 'the assignment is unchanged')
    for n in names:
        once = S.and_(n in pars, w.kind[n] == RV, S.not_(w.invalid[n]))
        S.prove(S.iff(w.evaluated[n] >= 1, once) , 'exactly the assigned random variables count')
        S.prove(w.drawn[n] == 0, 'nothing is drawn')


def chromosome(S, names, order, none):
    bn, w = stub_network(S, names, order)
    x = values(S, names + ['extra'])
    cond = {}
    for n in order:
        if S.bool('given_' + n):
            cond[n] = x[n]
    if S.bool('given_extra'):
        cond['extra'] = x['extra']
    for n in names:
        w.flag[n] = S.int('flag_' + n, 0, 3)
        S.assume(S.implies(w.kind[n] == EXO, n in cond))
    if none:
        S.assume(len(cond) == 0)
    before = dict(cond)
    if none:
        ch = sample_chromosome(bn)
    else:
        ch = sample_chromosome(bn, cond)
    S.reach('sampled')
    S.prove(S.same(cond, before), "the caller's mapping is unchanged")
    S.prove(S.same(set(ch.Locus), set(names) | set(before)), 'the chromosome has every variable and the extra keys')
    for n in names:
        if n in before:
            S.prove(S.close(ch[n], x[n]), 'given values are kept')
        else:
            S.prove(S.close(ch[n], w.value(n, ch.Locus)), 'values agree with the parents in the same sample')
            S.prove(w.drawn[n] == 1, 'drawn exactly once')
    S.prove(S.close(ch.LogProb, total(S, w, ch.Locus)), 'it carries the joint log prior of its values')
    S.prove(ch.is_evaluated(), 'a sampled chromosome is evaluated')


def units(tier):
    n = 6 if tier == 'quick' else 9
    names = list(ABC[:n])
    b = 'any network over %s' % ''.join(names)
    us = []
    for k in (0, 1, 2):
        for frozen in (True, False):
            us.append(Unit('joint log prior, order %d%s' % (k, ', frozen' if frozen else ''), joint, (names, scramble(names, k), frozen), ['evaluated'], b))
        us.append(Unit('chromosome, order %d' % k, chromosome, (names, scramble(names, k), False), ['sampled'], b))
    us.append(Unit('chromosome without conditions', chromosome, (names, scramble(names, 0), True), ['sampled'], b))
    return us
