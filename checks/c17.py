"""C17: data models serve priors, distances and particles faithfully."""
import math
import numpy as np
from sims_pars.bayesnet.bn import bayes_net_from_script
from sims_pars.bayesnet.chromosome import Chromosome
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import AbsData
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, World, stub_network, values

ABC = 'cabed'
BOUNDS = 'networks over n variables of any kind and definitions, any given and exogenous values; up to k targets with any distances and likelihoods'
OUTSIDE = 'more variables or targets; the list of domains; given names that are not in the network'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed',
               'a target is any function of the simulated output']


class Idle(DataModel):
    def simulate(self, pars):
        return Particle(pars, {})


def prepare(S, names, order, ints, noise):
    """a network, what is fixed exogenously, and the model"""
    bn, w = stub_network(S, names, order)
    for n in ints:
        w.ints[n] = True
    x = {n: S.int('ei_' + n, 0, 9) if n in ints else S.real('e_' + n) for n in names}
    fixed = {n: S.or_(w.kind[n] == EXO, S.bool('fix_' + n)) for n in names}
    exo = {n: x[n] for n in order[::-1] if fixed[n]}
    if noise:
        for n in names:
            w.flag[n] = S.int('flag_' + n, 0, 3)
    return bn, w, exo, fixed, x


def roots(S, names, w):
    """random variables that depend on no random variable"""
    rand, r = {}, {}
    for i, n in enumerate(names):
        dep = S.or_(*[S.and_(w.link[m, n], rand[m]) for m in names[:i]])
        r[n] = S.and_(w.kind[n] == RV, S.not_(dep))
        rand[n] = S.or_(w.kind[n] == RV, dep)
    return r


def complete(S, names, w, p, given, what, noise):
    """p keeps what is given, the rest follows from the network, and the joint log density is attached"""
    S.prove(S.same(set(p.Locus), set(names)), what + ': every variable has a value')
    for n in names:
        if n in given:
            S.prove(S.close(p[n], given[n]), what + ': given values are kept')
        else:
            S.prove(S.close(p[n], w.value(n, p.Locus)), what + ': the other values follow from the network')
    lp = 0
    for n in names:
        lp = lp + w.density(n, p.Locus)
    if noise:
        if S.isnan(lp):
            lp = -math.inf
    S.prove(S.close(p.LogProb, lp), what + ': the joint log prior is attached')


def serving(S, names, order, how, noise):
    bn, w, exo, fixed, x = prepare(S, names, order, (), noise)
    m = Idle({}, bn, exo)
    S.reach('made')
    before = dict(exo)
    if how == 'sample':
        p = m.sample_prior()
        given = exo
    else:
        y = values(S, names, 'y_')
        g = {n: y[n] for n in order if S.bool('give_' + n)}
        keep = dict(g)
        if how == 'serve':
            p = m.serve(g)
        else:
            l = S.real('lp')
            js = {'Locus': g, 'LogProb': l}
            p = m.serve_from_json(js)
        S.prove(S.same(g, keep), 'what is given is not changed')
        given = {}
        for n in names:
            if fixed[n]:
                given[n] = x[n]
            elif n in g:
                given[n] = y[n]
    S.reach('served')
    if how == 'json':
        S.prove(S.close(p.LogProb, l), 'the stored log prior is kept')
        S.prove(S.and_(*[S.close(p[n], given[n] if n in given else w.value(n, p.Locus)) for n in names]), 'the stored values are kept')
        return
    complete(S, names, w, p, given, how, noise)
    S.prove(S.same(exo, before), 'the exogenous values are not changed')
    # setting a value invalidates, and evaluating attaches the log prior again
    old = p.LogProb
    S.prove(S.close(m.evaluate_prior(p), old), 'an evaluated set keeps its log prior')
    q = Chromosome(dict(p.Locus))
    lp = m.evaluate_prior(q)
    S.prove(S.and_(S.close(lp, old), S.close(q.LogProb, old)), 'evaluating gives the joint log prior')


def free(S, names, order, ints):
    bn, w, exo, fixed, x = prepare(S, names, order, ints, False)
    m = Idle({}, bn, exo)
    S.reach('made')
    r = roots(S, names, w)
    got = list(m.FreeParameters)
    for n in names:
        S.prove(S.iff(n in got, S.and_(r[n], S.not_(fixed[n]), n not in ints)), 'the free parameters are the continuous random roots not fixed')
    S.prove(len(got) == len(set(got)), 'each is listed once')


class Target(AbsData):
    """any distance and likelihood of the simulated output"""

    def __init__(self, S, name, obs):
        AbsData.__init__(self, name, obs)
        self.S = S
        self.used = 0

    def get_var_obs(self):
        return 1

    def calc_distance(self, sim):
        self.used = self.used + 1
        return self.S.fn('d_' + self.Name, sim[self.Name])

    def calc_likelihood(self, sim):
        self.used = self.used + 1
        return self.S.fn('l_' + self.Name, sim[self.Name])


class Sim(DataModel):
    def __init__(self, S, targets, sims):
        self.sims = sims
        DataModel.__init__(self, targets, bayes_net_from_script('PCore A {\n x ~ norm(0, 1)\n y ~ norm(x, 1)\n}'))

    def simulate(self, pars):
        return Particle(pars, dict(self.sims))


def measures(S, k, kind, flat):
    outs = {c: S.real('o_' + c) for c in 'pqrs'[:k]}
    outs['unused'] = S.real('unused')
    tg = {c: Target(S, c, 1.0) for c in 'srqp' if c in outs}
    m = Sim(S, tg, outs)
    pars = Chromosome({'x': S.real('x'), 'y': S.real('y')}, S.real('lp'))
    pt = m.simulate(pars)
    if flat:
        m.flatten(pt)
    S.reach('made')

    def want(f):
        t = 0
        for c in tg:
            t = t + S.fn(f + c, outs[c])
        return t
    if kind != 'likelihood':
        S.prove(S.close(m.calc_distance(pt), want('d_')), 'the distance is the sum over the targets')
    if kind != 'distance':
        S.prove(S.close(m.calc_likelihood(pt), want('l_')), 'the log likelihood is the sum over the targets')
    n = 2 if kind == 'both' else 1
    S.prove(S.and_(*[t.used == n for t in tg.values()]), 'each target is used once')
    if kind != 'likelihood':
        S.prove(S.close(m.calc_distance(pt), want('d_')), 'the distance is remembered')
    if kind != 'distance':
        S.prove(S.close(m.calc_likelihood(pt), want('l_')), 'the log likelihood is remembered')
    S.prove(S.and_(*[t.used == n for t in tg.values()]), 'remembered values are not computed again')
    S.prove(S.same(dict(pt['Ys']), {c: outs[c] for c in tg}), 'the outputs are those of the targets')
    S.prove(S.and_(len(pt['Xs']) == 1, S.close(pt['Xs'][0], pars['x'])), 'the parameters are those of the domain')
    # the next particle is not mistaken for this one
    o2 = {c: S.real('o2_' + c) for c in outs}
    m.sims = o2
    pt2 = m.simulate(Chromosome({'x': S.real('x2'), 'y': S.real('y2')}, 0.0))
    t2 = 0
    for c in tg:
        t2 = t2 + S.fn('d_' + c, o2[c])
    S.prove(S.close(m.calc_distance(pt2), t2), 'another particle has its own distance')


def particles(S, names):
    x, y = values(S, names, 'v_'), values(S, names, 'z_')
    outs = {'p': S.real('o_p'), 'q': S.real('o_q')}
    lp = S.ext('lp')
    tg = {c: Target(S, c, 1.0) for c in outs}
    m = Sim(S, tg, outs)
    pt = Particle(Chromosome(dict(x), lp), dict(outs))
    for k, v in (('Xs', [x[names[0]]]), ('Ys', dict(outs)), ('distance', S.real('stale')), ('log_lik', S.real('stale2')), ('more', S.real('note'))):
        if S.bool('has_' + k):
            pt[k] = v
    S.assume(S.implies('Xs' in pt.Notes, 'Ys' in pt.Notes))
    notes = dict(pt.Notes)
    back = Particle.from_json(pt.to_json())
    cp = pt.copy()
    S.reach('made')
    S.prove(S.same(dict(back.Pars.Locus), x), 'json: parameters')
    S.prove(S.close(back.Pars.LogProb, lp), 'json: log prior')
    S.prove(S.same(dict(back.Sims), outs), 'json: outputs')
    S.prove(S.same(dict(back.Notes), notes), 'json: notes')
    S.prove(S.same(dict(cp.Pars.Locus), x), 'copy: parameters')
    S.prove(S.close(cp.Pars.LogProb, lp), 'copy: log prior')
    S.prove(S.same(dict(cp.Sims), outs), 'copy: outputs')
    S.prove(S.not_(S.or_('distance' in cp.Notes, 'log_lik' in cp.Notes)), 'copy: measures are not copied')
    d = S.fn('d_p', outs['p']) + S.fn('d_q', outs['q'])
    l = S.fn('l_p', outs['p']) + S.fn('l_q', outs['q'])
    S.prove(S.close(m.calc_distance(cp), d), 'copy: the distance is evaluated afresh')
    S.prove(S.close(m.calc_likelihood(cp), l), 'copy: the likelihood is evaluated afresh')
    S.prove(S.same(dict(pt.Notes), notes), 'the notes of the original are not changed by its copy')
    k = S.choice('set', names)
    if S.bool('set the copy'):
        cp.Pars[k] = y[k]
        S.prove(S.same(dict(pt.Pars.Locus), x), 'the original keeps its parameters')
        S.prove(S.close(pt.Pars.LogProb, lp), 'the original keeps its log prior')
    else:
        pt.Pars[k] = y[k]
        S.prove(S.same(dict(cp.Pars.Locus), x), 'the copy keeps its parameters')
        S.prove(S.close(cp.Pars.LogProb, lp), 'the copy keeps its log prior')


def units(tier):
    us = []
    q = tier == 'quick'
    n = 4 if q else 5
    names = list(ABC[:n])
    b = 'any network over %s, any values given or fixed' % ''.join(names)
    for how in ('sample', 'serve', 'json'):
        for k in (0, 1):
            us.append(Unit('%s, order %d' % (how, k), serving, (names, scramble(names, k), how, False), ['served'], b))
    small = names[:3]
    for how in ('sample', 'serve'):
        us.append(Unit('%s, invalid densities' % how, serving, (small, scramble(small, 0), how, True), ['served'], 'any network over %s' % ''.join(small)))
    for ints in ((), names[:1], names[1:3]):
        us.append(Unit('free parameters, integers: %s' % (', '.join(ints) or 'none'), free, (names, scramble(names, 0), ints), ['made'], b))
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        for kind in ('distance', 'likelihood', 'both'):
            for flat in (False, True):
                us.append(Unit('%s over %d targets%s' % (kind, k, ', flattened before' if flat else ''), measures, (k, kind, flat), ['made'], 'any outputs and targets'))
    us.append(Unit('particles', particles, (['x', 'y'],), ['made'], 'any values, any notes'))
    return us
