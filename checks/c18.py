"""C18: rejection sampling keeps only particles within the tolerance."""
import math
import numpy as np
from sims_pars.bayesnet.bn import bayes_net_from_script
from sims_pars.fit.abcom.alg import ApproxBayesCom
from sims_pars.fit.base import DataModel, Particle
from .common import Unit
from .c17 import Target

BOUNDS = 'up to n test runs and m posterior particles, at most r simulations more than particles, any distances (infinite ones included) and draws'
OUTSIDE = 'more particles or rejected simulations; distances that are not numbers; scheduling of worker processes (tasks are run in order)'
ASSUMPTIONS = ['the output of a simulation is any function of its parameters, the distance any function of the output']


class Cut(Target):
    """a distance that is infinite for some outputs"""

    def calc_distance(self, sim):
        if self.S.pred('far_' + self.Name, sim[self.Name]):
            return math.inf
        return self.S.fn('d_' + self.Name, sim[self.Name])


class Toy(DataModel):
    def __init__(self, S, tg, most):
        self.S = S
        self.most = most
        self.runs = 0
        self.seen = []
        DataModel.__init__(self, tg, bayes_net_from_script('PCore A {\n x ~ norm(0, 1)\n}'))

    def outputs(self, pars):
        return {k: self.S.fn('o_' + k, pars['x']) for k in self.Data}

    def simulate(self, pars):
        self.runs = self.runs + 1
        self.S.assume(self.runs <= self.most)
        y = self.outputs(pars)
        y['unused'] = 0.5
        self.seen.append(pars['x'])
        return Particle(pars, y)

    def want(self, pars):
        t = 0
        y = self.outputs(pars)
        for k, tg in self.Data.items():
            t = t + tg.calc_distance(y)
        return t


def learn(S, model, n, p, parallel):
    alg = ApproxBayesCom(n_test=n, p_test=p, parallel=parallel, n_core=1, verbose=0)
    alg.fit(model)
    return alg


def prior(S, n, p, extra, parallel, targets):
    tg = {c: Cut(S, c, 1.0) for c in targets}
    m = Toy(S, tg, n + extra)
    alg = learn(S, m, n, p, parallel)
    S.reach('fitted')
    got = []
    for x in m.seen:
        d = m.want({'x': x})
        if d != math.inf:
            got.append(d)
    S.prove(S.close(alg.State.Eps, np.quantile(np.array(got), p)), 'the tolerance is the requested quantile of the finite prior distances')
    S.prove(len(got) == n, 'as many finite distances as test runs')
    S.prove(S.close(alg.State.Acc, p), 'the requested share is kept')


def keep(S, n, m_, p, extra, parallel, targets):
    tg = {c: Cut(S, c, 1.0) for c in targets}
    m = Toy(S, tg, 0)
    eps = S.real('eps')
    m.most = n
    alg = learn(S, m, n, p, parallel)
    alg.State.Eps = eps
    m.runs = 0
    m.most = m_ + extra
    po = alg.sample_posteriors(m_)
    S.reach('collected')
    S.prove(len(po) == m_, 'exactly the requested number of particles')
    S.prove(S.close(po['Acceptance'] * m.runs, m_), 'acceptance is kept over simulated')
    S.prove(S.close(po['Eps'], eps), 'the tolerance is noted')
    S.prove(S.and_(po['ESS'] == m_), 'the effective size is noted')
    for pt in po.Particles:
        S.prove(S.leq(m.want(pt.Pars), eps), 'the distance is within the tolerance')
        S.prove(S.leq(m.calc_distance(pt), eps), 'the distance kept is within the tolerance')
        y = m.outputs(pt.Pars)
        S.prove(S.and_(*[S.close(pt.Sims[k], y[k]) for k in y]), 'outputs are those of the parameters')
        S.prove(S.same(dict(pt['Ys']), y), 'outputs are recorded')
        S.prove(S.and_(len(pt['Xs']) == 1, S.close(pt['Xs'][0], pt.Pars['x'])), 'parameters are recorded')


def units(tier):
    us = []
    q = tier == 'quick'
    for parallel in (False, True):
        w = 'parallel' if parallel else 'sequential'
        for n, p, extra, tg in ((2, 0.3, 2, 'p'), (3, 0.05, 1, 'p'), (3, 0.5, 1, 'p'), (2, 0.8, 1, 'pq')) + (() if q else ((4, 0.3, 2, 'p'), (3, 0.05, 3, 'pq'))):
            us.append(Unit('tolerance of %d runs at %s, %d target(s), %s' % (n, p, len(tg), w), prior, (n, p, extra, parallel, tg), ['fitted'],
                           'at most %d infinite distances' % extra))
        for n, extra, tg in ((1, 2, 'p'), (2, 2, 'p'), (3, 1, 'p'), (2, 1, 'pq')) + (() if q else ((4, 2, 'p'), (3, 3, 'pq'))):
            us.append(Unit('%d particles, %d target(s), %s' % (n, len(tg), w), keep, (1, n, 0.5, extra, parallel, tg), ['collected'],
                           'at most %d rejected simulations' % extra))
    return us
