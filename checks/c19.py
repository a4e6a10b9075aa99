"""C19: each round of ABC-SMC keeps a valid weighted population within tolerance."""
import math
import numpy as np
from sims_pars.bayesnet.bn import bayes_net_from_script
from sims_pars.bayesnet.chromosome import Chromosome
from sims_pars.fit.abc_smc.alg import ApproxBayesComSMC, StateABCSMC, sample_mutation
from sims_pars.fit.base import DataModel, Particle
from .common import Unit
from .c18 import Cut

BOUNDS = 'populations of n particles in any valid state (any weights, any distances, any tolerance, infinite too), one round, all draws; at most r simulations more than particles'
OUTSIDE = 'larger populations; fewer than three particles of positive weight after tightening (the code refuses); distances that are not numbers; prior-impossible proposals beyond the bound; scheduling of worker processes'
ASSUMPTIONS = ['the output of a simulation is any function of its parameters, the distance any function of the output']
SPOTS = (1.0, 2.5, 4.0, 7.0, 8.5, 9.0)


class Toy(DataModel):
    def __init__(self, S, most, wide=False, names='p'):
        self.S = S
        self.most = most
        self.runs = 0
        self.asked = 0
        self.seen = []
        tg = {c: Cut(S, c, 1.0) for c in names}
        DataModel.__init__(self, tg, bayes_net_from_script('PCore A {\n x ~ %s\n}' % ('norm(0, 5)' if wide else 'unif(0, 10)')))

    def outputs(self, pars):
        return {k: self.S.fn('o_' + k, pars['x']) for k in self.Data}

    def serve(self, p):
        self.asked = self.asked + 1
        self.S.assume(self.asked <= self.most)
        return DataModel.serve(self, p)

    def simulate(self, pars):
        self.runs = self.runs + 1
        self.S.assume(self.runs <= self.most)
        y = self.outputs(pars)
        y['unused'] = 0.5
        self.seen.append(pars['x'])
        return Particle(pars, y)

    def want(self, pars):
        t = 0
        y = self.outputs(pars)
        for k, tg in self.Data.items():
            t = t + tg.calc_distance(y)
        return t


class AnyStep(ApproxBayesComSMC):
    """the steps of the proposals are any"""

    def calc_weighted_std(self, theta1, wts):
        return {'x': self.Model.S.real('tau', gt=0)}


def fitter(m, n, parallel, **k):
    alg = AnyStep(n_iter=n, parallel=parallel, n_core=1, verbose=0, **k)
    alg.attach(m)
    return alg


def population(S, m, n):
    """particles as they are kept: their distances are finite"""
    pts = []
    for x in SPOTS[:n]:
        pars = Chromosome({'x': x}, -2.5)
        pt = Particle(pars, m.outputs(pars))
        S.assume(m.want(pars) < math.inf)
        pts.append(pt)
    m.most = m.most
    return pts


def valid_state(S, m, n, first, weights):
    """any state satisfying what every round keeps"""
    pts = population(S, m, n)
    ds = [m.want(pt.Pars) for pt in pts]
    w = list(weights)
    eps = math.inf if first else S.real('eps')
    for a, d in zip(w, ds):
        if a > 0:
            S.assume(d < eps)
    rnd = S.int('round', 0, 30)
    stay = S.int('stay', 0, 5)
    thres = S.real('thres', gt=0)
    st = StateABCSMC(np.array(w), pts, rnd=rnd, stay=stay, ess=1.0, acc=1.0, eps=eps, eps_thres=thres)
    return st, w, ds, eps, rnd, stay, thres


def yes(S, c):
    """decides c (one path each)"""
    return S.concrete(1 if c else 0) == 1


def valid(S, m, n, st, what):
    w = list(st.Wts)
    S.prove(len(st.Particles) == n, what + 'the population has the configured size')
    S.prove(len(w) == n, what + 'one weight each')
    S.prove(S.and_(*[S.leq(0, a) for a in w]), what + 'weights are not negative')
    S.prove(S.close(sum(w[1:], w[0]), 1), what + 'weights sum to one')
    for a, pt in zip(w, st.Particles):
        d = m.want(pt.Pars)
        S.prove(S.implies(a > 0, d < st.Eps), what + 'particles of positive weight are within the tolerance')
        S.prove(S.close(m.calc_distance(pt), d), what + 'distances are those of the particles')
    q = w[0] * w[0]
    for a in w[1:]:
        q = q + a * a
    S.prove(S.close(st.ESS * q, 1), what + 'the effective size is that of the weights')


def a_round(S, n, alpha, extra, parallel, first, weights):
    m = Toy(S, 0, extra == 0)
    st, w, ds, eps0, rnd, stay, thres = valid_state(S, m, n, first, weights)
    alg = fitter(m, n, parallel, alpha=alpha, max_round=1)
    alg.State = st
    # the tolerance
    within = 0
    for d in ds:
        if yes(S, d <= eps0):
            within = within + 1
    q = np.quantile(np.array(ds), alpha * (within / n))
    tight = yes(S, q < eps0)
    eps1 = q if tight else eps0
    stays = [a > 0 and yes(S, d < eps1) for a, d in zip(w, ds)]
    S.assume(sum([1 if k else 0 for k in stays]) > 2)
    kept = [a if k else 0.0 for a, k in zip(w, stays)]
    tot = sum(kept[1:], kept[0])
    wn = np.array(kept)
    wn = wn / wn.sum()
    low = yes(S, thres * (wn ** 2).sum() > 1)
    m.runs, m.asked = 0, 0
    m.most = n + extra
    k0 = S.mark_draws()
    alg.update()
    S.reach('a round')
    s1 = alg.State
    S.prove(S.close(s1.Eps, eps1), 'the tolerance is the quantile, or stays')
    S.prove(s1.Eps <= eps0, 'the tolerance does not increase')
    valid(S, m, n, s1, '')
    S.prove(s1.Round == rnd + 1, 'rounds are counted')
    S.prove(s1.Stay == (0 if tight else stay + 1), 'stalled rounds are counted')
    S.prove(s1.EpsThres == thres, 'the threshold stays')
    # resampling
    ch = [d for d in S.draws(k0) if d['kind'] == 'choice']
    again = len(ch) > 0
    S.prove(S.iff(again, low), 'resampled when the effective size is below its threshold')
    took = 0
    for x in m.seen:
        d = m.want({'x': x})
        took = took + (1 if d < s1.Eps else 0)
    S.prove(S.close(s1.Acceptance * n, took), 'acceptance is the share replaced')
    for i, pt in enumerate(s1.Particles):
        x = pt.Pars['x']
        old = S.or_(*[S.and_(x == SPOTS[j], stays[j], again) for j in range(n)], S.and_(x == SPOTS[i], S.not_(again)))
        S.prove(S.or_(old, m.want(pt.Pars) < s1.Eps), 'a particle is replaced only within the tolerance')
        if not again:
            S.prove(S.close(s1.Wts[i] * tot, kept[i]), 'weights are those of the particles kept')
    rec = alg.Monitor.Records[-1]
    S.prove(S.and_(rec['Round'] == rnd + 1, S.close(rec['Eps'], s1.Eps), S.close(rec['ESS'], s1.ESS), S.close(rec['Acc'], s1.Acceptance), rec['Eval'] == m.runs),
            'the record is that of the round')


class Fixed(Toy):
    """the particles are 1, 2, 3, .. away and every proposal is far"""

    def want(self, pars):
        for i, x in enumerate(SPOTS):
            if pars['x'] == x:
                return i + 1.0
        return 100.0

    def calc_distance(self, pt):
        d = self.want(pt.Pars)
        pt['distance'] = d
        return d


def weighing(S, n, parallel, which):
    """any weights: how they are carried over, and when the particles are drawn again"""
    m = Fixed(S, n, True)
    pts = [Particle(Chromosome({'x': x}, -2.5), {'p': 0.0}) for x in SPOTS[:n]]
    a = S.real('a', gt=0, lt=0.5)
    w = [0.5 / (n - 2) for _ in range(n)]
    w[which[0]], w[which[1]] = a, 0.5 - a
    thres = S.real('thres', gt=0)
    alg = fitter(m, n, parallel, alpha=0.9, max_round=1)
    alg.State = StateABCSMC(np.array(w), pts, rnd=0, stay=0, ess=1.0, acc=1.0, eps=n + 0.5, eps_thres=thres)
    kept = w[:-1]
    tot = sum(kept[1:], kept[0])
    sq = kept[0] * kept[0]
    for a in kept[1:]:
        sq = sq + a * a
    k0 = S.mark_draws()
    alg.update()
    S.reach('a round')
    s1 = alg.State
    again = len([d for d in S.draws(k0) if d['kind'] == 'choice']) > 0
    S.prove(S.iff(again, thres * sq > tot * tot), 'resampled when the effective size is below its threshold')
    for i in range(n):
        if again:
            S.prove(S.close(s1.Wts[i] * n, 1), 'weights are equal again')
        else:
            S.prove(S.close(s1.Wts[i] * tot, kept[i] if i < n - 1 else 0), 'weights are those of the particles kept')
    if again:
        S.prove(S.close(s1.ESS, n), 'the effective size is that of equal weights')
    else:
        S.prove(S.close(s1.ESS * sq, tot * tot), 'the effective size is that of the weights')


def start(S, n, extra, parallel, parents):
    m = Toy(S, n + extra)
    alg = fitter(m, n, parallel, p_thres=0.7)
    if parents:
        alg.set_parents([{'x': 1.5}, {'x': 3.0}])
    alg.initialise()
    S.reach('initialised')
    st = alg.State
    valid(S, m, n, st, '')
    S.prove(S.and_(st.Eps == math.inf, st.Round == 0, st.Stay == 0), 'nothing is rejected at the beginning')
    S.prove(S.close(st.EpsThres, n * 0.7), 'the threshold is the configured share')
    for pt in st.Particles:
        S.prove(m.want(pt.Pars) < math.inf, 'distances are finite')
        if parents:
            S.prove(S.or_(pt.Pars['x'] == 1.5, pt.Pars['x'] == 3.0), 'parents are used')
    rec = alg.Monitor.Records[-1]
    S.prove(S.and_(rec['Round'] == 0, rec['Eps'] == math.inf, S.close(rec['ESS'], n), rec['Acc'] == 1, rec['Eval'] == m.runs), 'the record is that of the beginning')


def stopping(S):
    m = Toy(S, 0)
    mr, ms, ma = S.int('max_round', 1, 30), S.int('max_stay', 1, 9), S.real('min_acc')
    alg = fitter(m, 4, False, max_round=mr, max_stay=ms, min_acc=ma)
    r, s, a = S.int('round', 1, 30), S.int('stay', 0, 30), S.real('acc')
    alg.State = StateABCSMC(np.ones(4) / 4, [], rnd=r, stay=s, ess=4.0, acc=a, eps=1.0, eps_thres=2.0)
    got = alg._check_termination()
    S.reach('checked')
    S.prove(S.iff(got, S.or_(r >= mr, S.and_(r >= 3, s >= ms), a < ma)), 'stops at the round limit, when stalled, or at low acceptance')


class Scripted(ApproxBayesComSMC):
    """any rounds"""

    def _a_round(self):
        i = self.State.Round
        self.script_done = i + 1
        s, a = self.script[i]
        self.State = StateABCSMC(self.State.Wts, [], rnd=i + 1, stay=s, ess=4.0, acc=a, eps=1.0, eps_thres=2.0)


def running(S, k):
    alg = Scripted(max_round=k, max_stay=2, min_acc=0.1, verbose=0)
    alg.script = [(S.int('stay%d' % i, 0, 3), S.real('acc%d' % i)) for i in range(k)]
    alg.State = StateABCSMC(np.ones(4) / 4, [])
    alg.update()
    S.reach('ran')
    n = alg.script_done
    for i in range(1, k + 1):
        s, a = alg.script[i - 1]
        end = S.or_(i >= k, S.and_(i >= 3, s >= 2), a < 0.1)
        S.prove(S.implies(i < n, S.not_(end)), 'does not run on')
        S.prove(S.implies(n == i, end), 'does not stop before')


def posterior(S, n, k, extra, parallel, weights):
    m = Toy(S, 0, extra == 0)
    st, w, ds, eps, rnd, stay, thres = valid_state(S, m, n, False, weights)
    alg = fitter(m, n, parallel)
    alg.State = st
    m.runs, m.asked = 0, 0
    m.most = k + extra
    for pt in st.Particles:
        m.calc_distance(pt)
    alg.Monitor.keep(Round=0, Eval=n, Eps=eps, ESS=1.0, Acc=1)
    alg.Monitor.step()
    po = alg.sample_posteriors(k)
    S.reach('collected')
    S.prove(len(po) == k, 'as many as asked')
    for pt in po.Particles:
        S.prove(m.want(pt.Pars) < eps, 'within the tolerance')
        S.prove(S.same(dict(pt['Ys']), m.outputs(pt.Pars)), 'outputs are recorded')
    S.prove(S.close(po['Eps'], eps), 'the tolerance is noted')


class Far(Toy):
    """every proposal is infinitely far"""

    def want(self, pars):
        return 1.0 if pars['x'] == 4.0 else math.inf

    def calc_distance(self, pt):
        d = self.want(pt.Pars)
        pt['distance'] = d
        return d


def stuck(S, unpack):
    m = Far(S, 30, True)
    pt = Particle(Chromosome({'x': 4.0}, -1.0), {'p': 1.0})
    k0 = S.mark_draws()
    tau = S.real('tau', gt=0)
    m.runs = 0
    for _ in range(1):
        di, sim, ne = sample_mutation(m, pt.to_json() if unpack else pt, {'x': tau}, unpack=unpack)
    S.reach('done')
    if unpack:
        sim = Particle.from_json(sim)
    S.prove(di < math.inf, 'the distance is finite')
    S.prove(S.close(di, m.want(sim.Pars)), 'the distance is that of the particle')
    S.prove(S.close(sim['distance'], di), 'the distance is recorded')
    S.prove(S.and_(sim.Pars['x'] == 4.0), 'the particle stays where it is')
    S.prove(ne == m.runs, 'simulations are counted')


def units(tier):
    us = []
    q = tier == 'quick'
    for parallel in (False, True):
        w = 'parallel' if parallel else 'sequential'
        u4, u5 = (0.25,) * 4, (0.2,) * 5
        for n, alpha, extra, first, weights in ((4, 0.9, 0, True, u4), (4, 0.7, 0, False, (0.1, 0.5, 0.25, 0.15)), (4, 0.9, 0, False, (0.5, 0.0, 0.25, 0.25))) + \
                (() if q else ((4, 0.9, 1, True, u4), (4, 0.9, 1, False, (0.5, 0.0, 0.25, 0.25)), (5, 0.9, 0, True, u5), (5, 0.6, 0, False, (0.1, 0.2, 0.4, 0.15, 0.15)),
                               (5, 0.9, 0, False, (0.25, 0.0, 0.5, 0.125, 0.125)))):
            us.append(Unit('%s round of %d at %s, weights %s, %d more runs, %s' % ('first' if first else 'later', n, alpha, weights, extra, w), a_round,
                           (n, alpha, extra, parallel, first, weights), ['a round'], '%d particles, %d simulations at most' % (n, n + extra)))
        n = 4 if q else 6
        for which in ((0, 1), (2, n - 1)):
            us.append(Unit('weighing %d, %s, %s' % (n, which, w), weighing, (n, parallel, which), ['a round'], 'any split of half the weight between these two'))
        for parents in (False, True):
            us.append(Unit('start with %s, %s' % ('parents' if parents else 'the prior', w), start, (3, 1 if q else 2, parallel, parents), ['initialised'], '3 particles'))
        us.append(Unit('posterior, %s' % w, posterior, (3, 2, 1, parallel, (0.25, 0.0, 0.75)), ['collected'], '3 particles, 2 collected'))
        us.append(Unit('no finite proposal, %s' % w, stuck, (parallel,), ['done'], 'any step'))
    us.append(Unit('stopping', stopping, (), ['checked'], 'any state and settings'))
    us.append(Unit('running', running, (4 if q else 6,), ['ran'], 'any rounds'))
    return us
