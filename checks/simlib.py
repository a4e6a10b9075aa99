"""Layouts of variable groups and the parameter sets generated from them."""
from sims_pars.simulation.nodeset import NodeSet
from sims_pars.simulation.simucore import SimulationCore
from .bnlib import EXO, VAL, FUN, RV, stub_network, values

ABC = 'dbfahcegji'
TREES = {'one': [('g', None)], 'chain': [('g', None), ('h', 'g')], 'fork': [('g', None), ('h', 'g'), ('i', 'g')],
         'deep': [('g', None), ('h', 'g'), ('i', 'h')]}
LINES = {'one': ['g'], 'chain': ['gh'], 'fork': ['gh', 'gi'], 'deep': ['ghi']}


def layout(S, names, order, w, tree):
    """the groups with what they are asked, only valid ones"""
    groups, asked, above = {}, {}, {}
    for g, up in TREES[tree]:
        fix = S.subset('fix_%s_' % g, order)
        flo = S.subset('flo_%s_' % g, order)
        asked[g] = fix, flo
        before = {}
        for n in reversed(names):
            before[n] = S.or_(n in fix, *[S.and_(w.link[n, m], before[m]) for m in names if m in before])
        # what is asked to float is not fixed, nor needed for what is fixed, in the group or above
        for n in names:
            S.assume(S.implies(n in flo, S.not_(before[n])))
            if up is not None:
                S.assume(S.implies(n in flo, S.not_(above[up][n])))
        above[g] = {n: S.or_(before[n], above[up][n] if up else False) for n in names}
        if up is None:
            groups[g] = NodeSet(g, fix, flo)
        else:
            groups[g] = groups[up].new_child(g, fix, flo)
    return groups, asked


def build(S, names, order, tree, kinds=(EXO, VAL, FUN, RV)):
    bn, w = stub_network(S, names, order, kinds)
    groups, asked = layout(S, names, order, w, tree)
    groups['g'].inject_bn(bn)
    return bn, w, groups, asked


def fixed_above(S, names, groups, tree):
    """{group: {n: fixed in the group or above}}"""
    fixed = {}
    for g, up in TREES[tree]:
        fixed[g] = {n: S.or_(n in groups[g].FixedNodes, fixed[up][n] if up else False) for n in names}
    return fixed


def grow(S, names, order, tree, w, groups, sc, own=True, suffix=''):
    """parameter sets, one per group; exogenous variables and some of the fixed ones are supplied"""
    pcs, over = {}, {}
    for g, up in TREES[tree]:
        ex = values(S, names, 'x_%s_' % g)
        over[g] = {}
        for n in order:
            if S.or_(S.and_(up is None, w.kind[n] == EXO), S.and_(n in groups[g].FixedNodes, S.bool('over_%s_%s' % (g, n)))):
                over[g][n] = ex[n]
        pcs[g] = sc.generate('p' + g, exo=over[g]) if up is None else pcs[up].breed('p' + g, g, exo=over[g])
    return pcs, over
