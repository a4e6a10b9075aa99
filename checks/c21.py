"""C21: genetic operators stay in the domain and keep the population valid."""
import math
import numpy as np
from sims_pars.bayesnet.chromosome import Chromosome
from sims_pars.fit.ga.cross import get_crossover
from sims_pars.fit.ga.mutate import get_mutator
from sims_pars.fit.ga.select import get_selector
from .common import Unit

BOUNDS = 'up to k free parameters and n members, any values, fitness, bounds and random choices'
OUTSIDE = 'larger populations and more parameters; domains narrower than the rounding margin; the loop of the genetic algorithm, which needs the interface of the legacy package'
ASSUMPTIONS = ['domains are at least 0.001 wide']
ABC = 'bdac'


class Dom:
    def __init__(self, name, lower, upper):
        self.Name, self.Lower, self.Upper, self.Type = name, lower, upper, 'Double'


class Objective:
    def __init__(self, domain):
        self.Domain = domain


class Member(Chromosome):
    def __init__(self, vs, li, post):
        Chromosome.__init__(self, vs, 0.0)
        self.LogLikelihood = li
        self.LogPosterior = post

    def clone(self):
        return Member(self.Locus, self.LogLikelihood, self.LogPosterior)


POPS = {'spread': (0.5, 2.0, 3.5, 7.0), 'equal': (1.5, 1.5, 1.5, 1.5), 'mostly equal': (1.5, 1.5, 1.5, 1.5, 9.0), 'one': (2.0,)}


def mutation(S, names, pop):
    doms = []
    for n in names:
        k = S.choice('kind_' + n, ('box', 'above', 'below', 'free'))
        lo, hi = S.real('lo_' + n), S.real('hi_' + n)
        S.assume(hi - lo > 0.001)
        S.tame(S.and_(lo >= -1, hi <= 1))
        if k == 'box':
            d = Dom(n, lo, hi)
        elif k == 'above':
            d = Dom(n, lo, math.inf)
        elif k == 'below':
            d = Dom(n, -math.inf, hi)
        else:
            d = Dom(n, -math.inf, math.inf)
        doms.append(d)
    obj = Objective(doms)
    mut = get_mutator('rw')
    mut.set_scales([{n: v + i for i, n in enumerate(names)} for v in POPS[pop]], obj)
    p = {n: S.real('x_' + n) for n in names}
    p['fixed'] = S.real('fixed')
    before = dict(p)
    k0 = S.mark_draws()
    q = mut.propose(p, obj)
    S.reach('proposed')
    S.prove(S.same(set(q), set(names)), 'a value for every free parameter')
    S.prove(S.same(dict(p), before), 'the parent is not changed')
    ds = [d for d in S.draws(k0) if d['kind'] == 'normal']
    S.prove(len(ds) == len(names), 'one step for each')
    for d, dom in zip(ds, doms):
        n = dom.Name
        S.prove(S.and_(dom.Lower <= q[n], q[n] <= dom.Upper), 'inside the domain')
        S.prove(S.close(d['loc'], p[n]), 'steps start at the parent')
        S.prove(S.less(0, d['scale']), 'steps are positive')
        v = d['value']
        S.prove(S.implies(S.and_(dom.Lower + 0.0001 < v, v < dom.Upper - 0.0001), S.close(q[n], v)), 'steps inside the domain are taken')


def crossover(S, names, how):
    obj = Objective([Dom(n, -math.inf, math.inf) for n in names])
    p1 = Chromosome({n: S.real('x_' + n) for n in reversed(names)}, 0.0)
    p2 = Chromosome({n: S.real('y_' + n) for n in names}, 0.0)
    p1['other'], p2['other'] = S.real('o1'), S.real('o2')
    b1, b2 = dict(p1.Locus), dict(p2.Locus)
    c1, c2 = get_crossover(how).crossover(p1, p2, obj)
    S.reach('crossed')
    S.prove(S.and_(S.same(set(c1), set(names)), S.same(set(c2), set(names))), 'children have every free parameter')
    for n in names:
        a, b = b1[n], b2[n]
        if how.startswith('average'):
            S.prove(S.and_(S.close(c1[n] * 2, a + b), S.close(c2[n] * 2, a + b)), 'children are at the midpoint')
        else:
            S.prove(S.or_(S.and_(c1[n] == a, c2[n] == b), S.and_(c1[n] == b, c2[n] == a)), 'children are complementary')
    S.prove(S.and_(S.same(dict(p1.Locus), b1), S.same(dict(p2.Locus), b2)), 'parents are not changed')
    k = S.choice('set', names)
    old = c2[k]
    c1[k] = S.real('new')
    S.prove(S.and_(S.close(c2[k], old), S.same(dict(p1.Locus), b1), S.same(dict(p2.Locus), b2)), 'children are independent')


def shuffling(S, names):
    """either gene may go to either child, independently"""
    obj = Objective([Dom(n, -math.inf, math.inf) for n in names])
    p1 = Chromosome({n: 1.0 for n in names}, 0.0)
    p2 = Chromosome({n: 2.0 for n in names}, 0.0)
    c1, c2 = get_crossover('shuffle').crossover(p1, p2, obj)
    S.reach('same side')
    if S.and_(c1[names[0]] == 1.0, c1[names[1]] == 2.0):
        S.reach('split')
    if S.and_(c1[names[0]] == 2.0, c1[names[1]] == 2.0):
        S.reach('swapped')
    S.prove(S.and_(*[c1[n] + c2[n] == 3.0 for n in names]), 'children are complementary')


def members(S, n, posts):
    ps = []
    for i in range(n):
        li = S.ext('li%d' % i, nan=True, pinf=False)
        po = S.real('po%d' % i) if posts is None else posts[i]
        ps.append(Member({'x': float(i), 'y': S.real('y%d' % i)}, li, po))
    return ps


def check_copies(S, ps, sel, loci, n):
    S.prove(len(sel) == n, 'as many as the population')
    for s in sel:
        S.prove(S.or_(*[S.and_(S.finite(ps[i].LogLikelihood), s['x'] == float(i), s['y'] == ps[i]['y']) for i in range(n)]), 'members of finite fitness')
    k = S.choice('change', list(range(n)))
    sel[k]['y'] = S.real('new')
    for p, l in zip(ps, loci):
        S.prove(S.same(dict(p.Locus), l), 'selected members are copies')
    for i, s in enumerate(sel):
        if i != k:
            S.prove(S.or_(*[S.and_(s['x'] == float(j), s['y'] == ps[j]['y']) for j in range(n)]), 'copies are independent of each other')


def tour(S, n, k, fitness):
    ps = members(S, n, None)
    ok = [S.concrete(1 if S.finite(p.LogLikelihood) else 0) == 1 for p in ps]
    el = [i for i in range(n) if ok[i]]
    S.assume(len(el) > k)
    loci = [dict(p.Locus) for p in ps]
    k0 = S.mark_draws()
    sel = get_selector('tour(%d)' % k).select(ps, Objective([]), fitness) if fitness else get_selector('tour(%d)' % k).select(ps, Objective([]))
    S.reach('selected')
    ds = [d for d in S.draws(k0) if d['kind'] == 'choice']
    S.prove(len(ds) == n, 'one tournament each')

    def fit(p):
        return p.LogPosterior if fitness in (None, 'MAP') else p.LogLikelihood
    for s, d in zip(sel, ds):
        S.prove(S.and_(len(d['index']) == k, d['n'] == len(el)), 'candidates are members of finite fitness')
        for ix in d['index']:
            for j, i in enumerate(el):
                if ix == j:
                    S.prove(fit(ps[i]) <= fit(s), 'the winner is a best candidate')
        S.prove(S.or_(*[S.and_(ix == j, s['x'] == float(i)) for ix in d['index'] for j, i in enumerate(el)]), 'the winner is a candidate')
    check_copies(S, ps, sel, loci, n)


def importance(S, n, posts, fitness):
    ps = members(S, n, posts)
    if fitness not in (None, 'MAP'):
        for i, p in enumerate(ps):
            p.LogLikelihood = posts[i] if S.concrete(1 if S.bool('fine%d' % i) else 0) == 1 else -math.inf
    ok = [S.concrete(1 if S.finite(p.LogLikelihood) else 0) == 1 for p in ps]
    S.assume(sum([1 if o else 0 for o in ok]) > 5)
    loci = [dict(p.Locus) for p in ps]
    sel = get_selector('importance').select(ps, Objective([]), fitness) if fitness else get_selector('importance').select(ps, Objective([]))
    S.reach('selected')
    check_copies(S, ps, sel, loci, n)
    for s in sel:
        for i in range(n):
            if posts[i] == -math.inf:
                S.prove(s['x'] != float(i), 'impossible members are not selected')


def units(tier):
    us = []
    q = tier == 'quick'
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        names = list(ABC[:k])
        for pop in POPS:
            us.append(Unit('mutation of %d, %s' % (k, pop), mutation, (names, pop), ['proposed'], 'any parent, domain and step; populations of up to five'))
        for how in ('average', 'shuffle', 'average()'):
            us.append(Unit('%s crossover of %d' % (how, k), crossover, (names, how), ['crossed'], 'any parents'))
    us.append(Unit('shuffling', shuffling, (list(ABC[:2]),), ['same side', 'split', 'swapped'], 'any choices'))
    for n, k in ((3, 1), (3, 2), (4, 3)) if q else ((3, 1), (3, 2), (4, 2), (4, 3), (5, 3)):
        for fitness in ('MAP', 'MLE', None):
            us.append(Unit('tournaments of %d among %d by %s' % (k, n, fitness), tour, (n, k, fitness), ['selected'], 'any fitness'))
    for posts in ((0.5, -1.0, 2.0, -3.5, 0.0, 1.0, -0.5), (0.5, -math.inf, 2.0, -3.5, 0.0, 1.0, -0.5)):
        for fitness in ('MAP', None):
            us.append(Unit('importance among 7 by %s, %s' % (fitness, posts[1]), importance, (7, posts, fitness), ['selected'], 'any seven members'))
    us.append(Unit('importance among 7 by MLE', importance, (7, (0.5, -1.0, 2.0, -3.5, 0.0, 1.0, -0.5), 'MLE'), ['selected'], 'any seven members'))
    return us
