"""C14: interventions on parameter trees stay consistent; clones are isolated."""
from sims_pars.simulation.simucore import SimulationCore
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, values
from .simlib import ABC, TREES, build, fixed_above, grow
from .c13 import expected

BOUNDS = 'networks over n variables of any kind and definitions; trees of up to three groups with one parameter set each; any fixed variables of the intervened set given values or reset'
OUTSIDE = 'more variables, groups or parameter sets; naming variables that the intervened parameter set does not fix itself; resetting exogenous variables'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']


def under(tree, g):
    """g and the groups below it"""
    r = [g]
    for k, up in TREES[tree]:
        if up in r:
            r.append(k)
    return r


def count(c):
    r = 0
    if c:
        r = 1
    return r


def plan(S, names, w, groups, tree, group, prefix=''):
    """what is set or reset, and what has to be computed again: {(g, n)}"""
    y = values(S, names, prefix + 'y_')
    mode, imp = {}, {}
    for n in names:
        mode[n] = S.int(prefix + 'mode_' + n, 0, 2)
        # named variables are fixed by the set itself, or by no set below (then nothing is set)
        nowhere = S.and_(*[S.not_(n in groups[g].FixedNodes) for g in under(tree, group)])
        S.assume(S.implies(mode[n] > 0, S.or_(n in groups[group].FixedNodes, nowhere)))
        S.assume(S.implies(mode[n] == 2, w.kind[n] != EXO))
    for n in names[::-1]:
        if mode[n] == 1:
            imp[n] = y[n]
        elif mode[n] == 2:
            imp[n] = None
    down = {}
    for i, n in enumerate(names):
        down[n] = S.or_(*[S.and_(w.link[m, n], S.or_(mode[m] > 0, down[m])) for m in names[:i]])
    again = {}
    for g in under(tree, group):
        for n in names:
            again[g, n] = S.and_(n in groups[g].FixedNodes, mode[n] != 1, S.or_(mode[n] == 2, down[n]))
            S.assume(S.implies(again[g, n], w.kind[n] != EXO))
    return imp, mode, y, again


def check_values(S, names, w, groups, tree, group, pcs, before, lps, mode, y, again, drawn):
    inside = under(tree, group)
    for g in pcs:
        pc = pcs[g]
        S.prove(S.and_(*[S.implies(k in before[g], k in pc.Locus) for k in names]), 'no value disappears')
        S.prove(S.and_(*[S.implies(k in pc.Locus, S.or_(k in before[g], mode[k] == 1)) for k in names]), 'nothing but what was set appears')
        if g not in inside:
            S.prove(S.same(dict(pc.Locus), before[g]), 'other parameter sets keep their values')
            S.prove(S.close(pc.LogProb, lps[g]), 'other parameter sets keep their log prior')
            continue
        lp = 0
        for n in names:
            fx = n in groups[g].FixedNodes
            if again[g, n]:
                S.prove(S.close(pc[n], w.value(n, pc)), 'recomputed at the new visible values')
            elif S.and_(fx, mode[n] == 1):
                S.prove(S.close(pc[n], y[n]), 'set to the given value')
            elif n in pc:
                S.prove(S.close(pc.Locus[n], before[g][n]), 'all other values are unchanged')
            if fx:
                lp = lp + w.density(n, pc)
        S.prove(S.close(pc.LogProb, lp), 'the log prior is that of the new values')
    for n in names:
        want = sum([count(again[g, n]) for g in inside])
        S.prove(w.drawn[n] == drawn[n] + want, 'exactly what is downstream is computed again, once in each parameter set')


def impulse(S, names, order, tree, group, how):
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = grow(S, names, order, tree, w, groups, sc)
    imp, mode, y, again = plan(S, names, w, groups, tree, group)
    before = {g: dict(pcs[g].Locus) for g in pcs}
    lps = {g: pcs[g].LogProb for g in pcs}
    drawn = dict(w.drawn)
    kept = dict(imp)
    if how == 'list':
        S.assume(S.and_(*[mode[n] != 1 for n in names]))
        pcs[group].impulse(list(imp))
    else:
        pcs[group].impulse(imp)
        S.prove(S.same(imp, kept), 'the intervention is unchanged')
    S.reach('intervened')
    check_values(S, names, w, groups, tree, group, pcs, before, lps, mode, y, again, drawn)


def refreshed(S, names, order, tree, group, shared):
    """samplers prepared before an intervention use the new values"""
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = grow(S, names, order, tree, w, groups, sc)
    fixed = fixed_above(S, names, groups, tree)
    imp, mode, y, again = plan(S, names, w, groups, tree, group)
    acts = {}
    for g in under(tree, group):
        acts[g] = pcs[g].get_actors(shared)
    pcs[group].impulse(imp)
    for g in under(tree, group):
        for n in names:
            if n in groups[g].FloatingNodes:
                S.reach('refreshed')
                want, _ = expected(S, names, w, pcs[g], fixed[g], n)
                S.prove(S.close(acts[g][n].sample(pcs[g]), want), 'samplers prepared before use the new values')


def clones(S, names, order, tree, copy_sc, children):
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = grow(S, names, order, tree, w, groups, sc)
    new = {'g': pcs['g'].clone(copy_sc=copy_sc, include_children=children)}
    S.prove(S.same(set(new['g'].Children), set(pcs['g'].Children) if children else set()), 'children are cloned when requested')
    if children:
        for g, up in TREES[tree]:
            if up is not None:
                new[g] = new[up].get_child('p' + g)
    for g in new:
        S.prove(S.same(dict(new[g].Locus), dict(pcs[g].Locus)), 'a clone has the same values')
        S.prove(S.close(new[g].LogProb, pcs[g].LogProb), 'a clone has the same log prior')
        S.prove(S.and_(new[g].Group == pcs[g].Group, new[g].Nickname == pcs[g].Nickname), 'a clone has the same names')
    S.reach('cloned')
    src, other = (pcs, new) if S.bool('intervene on the original') else (new, pcs)
    before = {g: dict(other[g].Locus) for g in other}
    lps = {g: other[g].LogProb for g in other}
    imp, mode, y, again = plan(S, names, w, groups, tree, 'g')
    src['g'].impulse(imp)
    for g in other:
        S.prove(S.same(dict(other[g].Locus), before[g]), 'the other copy keeps its values')
        S.prove(S.close(other[g].LogProb, lps[g]), 'the other copy keeps its log prior')
    for n in names:
        if n in groups['g'].FixedNodes:
            if mode[n] == 1:
                S.prove(S.close(src['g'][n], y[n]), 'the intervention reaches the copy it is made on')


def units(tier):
    us = []
    for t in TREES:
        k = (4 if t == 'one' else 3) if tier == 'quick' else 4 if t in ('one', 'chain') else 3
        names = list(ABC[:k])
        b = 'any network over %s, any valid layout' % ''.join(names)
        for g, up in TREES[t]:
            for how in ('mapping', 'list'):
                if how == 'list' and tier == 'quick' and t in ('fork', 'deep'):
                    continue
                us.append(Unit('intervention by %s, %s, group %s' % (how, t, g), impulse, (names, scramble(names, 0), t, g, how), ['intervened'], b))
            for sh in (True, False):
                us.append(Unit('%s samplers refreshed, %s, group %s' % ('shared' if sh else 'local', t, g), refreshed,
                               (names, scramble(names, 0), t, g, sh), ['refreshed'], b))
        for cs in (True, False):
            for ch in (True, False):
                if t == 'one' and ch or tier == 'quick' and t in ('fork', 'deep') and not (ch and cs):
                    continue
                us.append(Unit('clone, %s%s%s' % (t, ', own core' if cs else '', ', with children' if ch else ''), clones,
                               (names, scramble(names, 0), t, cs, ch), ['cloned'], b))
    return us
