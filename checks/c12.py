"""C12: parameter sets generated from any valid layout are complete and consistent."""
from sims_pars.simulation.simucore import SimulationCore
from .common import Unit, scramble
from .bnlib import EXO, values
from .simlib import ABC, TREES, LINES, build

BOUNDS = 'networks over n variables of any kind and definitions; trees of up to three groups; any variables asked to be fixed or floating; any values overridden'
OUTSIDE = 'more variables or groups'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']
def apart(S, names, w, groups, tree, n):
    """no line of groups has all the parents of n"""
    one = []
    for line in LINES[tree]:
        one.append(S.and_(*[S.or_(S.not_(w.link[p, n]), w.kind[p] == EXO, *[S.or_(p in groups[g].FixedNodes, p in groups[g].FloatingNodes) for g in line])
                            for p in names if (p, n) in w.link]))
    return S.not_(S.or_(*one))


def allocate(S, names, order, tree):
    bn, w, groups, asked = build(S, names, order, tree)
    S.reach('allocated')
    placed = {n: S.or_(*[S.or_(n in g.FixedNodes, n in g.FloatingNodes) for g in groups.values()]) for n in names}
    for n in names:
        S.prove(S.implies(w.kind[n] != EXO, S.or_(placed[n], apart(S, names, w, groups, tree, n))),
                'every variable which is not exogenous is placed')
        for k, g in groups.items():
            S.prove(S.not_(S.and_(n in g.FixedNodes, n in g.FloatingNodes)), 'not both fixed and floating in one group')
            S.prove(S.implies(n in asked[k][0], n in g.FixedNodes), 'what a group asks to fix is fixed in it')


def generate(S, names, order, tree):
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = {}, {}
    for g, up in TREES[tree]:
        ex = values(S, names, 'x_%s_' % g)
        over[g] = {}
        for n in order:
            if S.or_(S.and_(up is None, w.kind[n] == EXO), S.bool('over_%s_%s' % (g, n))):
                over[g][n] = ex[n]
        before = dict(over[g])
        if up is None:
            pcs[g] = sc.generate('p' + g, exo=over[g])
        else:
            pcs[g] = pcs[up].breed('p' + g, g, exo=over[g])
            S.prove(pcs[up].Children['p' + g] is pcs[g], 'the child is registered')
        S.prove(S.same(over[g], before), 'the values supplied are left as they were')
    S.reach('generated')
    seen = {}
    for g, up in TREES[tree]:
        seen[g] = {n: S.or_(n in pcs[g], seen[up][n] if up else False) for n in names}
    for k, g in groups.items():
        pc = pcs[k]
        lp = 0
        for n in names:
            if n in g.FixedNodes:
                S.prove(seen[k][n], 'every fixed variable has a value')
                if n in over[k]:
                    S.prove(S.close(pc[n], over[k][n]), 'values supplied are kept')
                elif w.kind[n] == EXO:
                    pass
                else:
                    S.prove(S.close(pc[n], w.value(n, pc)), 'a fixed variable has the value of its definition at the visible values')
                lp = lp + w.density(n, pc)
        S.prove(S.close(pc.LogProb, lp), 'the log prior is the sum of the log densities of its own fixed variables')


def units(tier):
    us = []
    for t in TREES:
        small = t in ('one', 'chain')
        for what, fn, k in (('allocation', allocate, 4 if tier == 'quick' else 5 if small else 4),
                            ('generation', generate, (4 if t == 'one' else 3) if tier == 'quick' else 5 if t == 'one' else 4)):
            names = list(ABC[:k])
            us.append(Unit('%s, %s' % (what, t), fn, (names, scramble(names, 0), t), ['allocated' if fn is allocate else 'generated'],
                           'any network over %s, any valid layout' % ''.join(names)))
    return us
