"""C13: samplers draw each floating variable at the current fixed values."""
from sims_pars.simulation.simucore import SimulationCore
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, values
from .simlib import ABC, TREES, build, fixed_above, grow

BOUNDS = 'networks over n variables of any kind and definitions; trees of up to three groups; any variables asked to be fixed or floating; any values'
OUTSIDE = 'more variables or groups; stored values for floating variables'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']


def expected(S, names, w, pc, fixed, target):
    """the value of a floating target and what has to be drawn for it"""
    need = {}
    for m in reversed(names):
        need[m] = S.or_(m == target, *[S.and_(w.link[m, k], need[k], S.or_(k == target, S.not_(fixed[k]))) for k in names if k in need])
    env, drawn = {}, {}
    for m in names:
        drawn[m] = False
        if need[m]:
            if S.and_(m != target, S.or_(fixed[m], w.kind[m] == EXO)):
                env[m] = pc[m]
            else:
                env[m] = w.value(m, env)
                drawn[m] = True
    return env[target], drawn


def samplers(S, names, order, tree, group, mode):
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = grow(S, names, order, tree, w, groups, sc)
    fixed = fixed_above(S, names, groups, tree)[group]
    pc = pcs[group]
    S.reach('generated')
    for n in names:
        if n in groups[group].FloatingNodes:
            before = {g: dict(pcs[g].Locus) for g in pcs}
            if mode == 'all local':
                smp = pc.get_samplers(shared=False)[n]
            elif mode == 'all shared':
                smp = pc.get_samplers()[n]
            elif mode == 'from parent':
                smp = None
                act = pc.Parent.get_child_samplers(group)[n]
            else:
                smp = pc.get_sampler(n, shared=mode == 'shared')
            S.reach('prepared')
            want, drawn = expected(S, names, w, pc, fixed, n)
            k0 = dict(w.drawn)
            got = act.sample(pc) if smp is None else smp()
            S.prove(S.close(got, want), 'a draw is the definition at the visible values')
            for m in names:
                S.prove(S.implies(w.kind[m] == RV, w.drawn[m] == k0[m] + one(drawn[m])), 'floating ancestors are drawn afresh, once each')
            if smp is not None:
                k1 = dict(w.drawn)
                vs = smp.sample(2)
                S.prove(len(vs) == 2, 'as many values as requested')
                for m in names:
                    S.prove(S.implies(w.kind[m] == RV, w.drawn[m] == k1[m] + 2 * one(drawn[m])), 'drawn afresh for each value')
                S.prove(S.and_(*[S.close(v, want) for v in vs]), 'each of them is a draw')
                S.prove(S.and_(S.number(smp.sample()), S.number(smp.sample(1))), 'a single value when one is requested')
            for g in pcs:
                S.prove(S.same(dict(pcs[g].Locus), before[g]), 'sampling changes no stored value')


def one(c):
    r = 0
    if c:
        r = 1
    return r


def changed(S, names, order, tree, group, shared):
    """after a value has changed an updated sampler uses it"""
    bn, w, groups, asked = build(S, names, order, tree)
    sc = SimulationCore(bn, groups['g'])
    pcs, over = grow(S, names, order, tree, w, groups, sc)
    fixed = fixed_above(S, names, groups, tree)[group]
    pc = pcs[group]
    y = values(S, names, 'y_')
    for n in names:
        if n in groups[group].FloatingNodes:
            smp = pc.get_sampler(n, shared=shared)
            for m in names:
                for g in pcs:
                    if S.and_(m in pcs[g], S.bool('change_%s_%s' % (g, m))):
                        pcs[g][m] = y[m]
            smp.update()
            S.reach('updated')
            want, _ = expected(S, names, w, pc, fixed, n)
            S.prove(S.close(smp(), want), 'an updated sampler uses the new values')


def units(tier):
    us = []
    for t in TREES:
        for g, up in TREES[t]:
            if t == 'chain' and g == 'g':
                continue
            for mode in ('local', 'shared', 'all local', 'all shared', 'from parent', 'updated shared', 'updated local'):
                k = 4 if t == 'one' or t == 'chain' and (tier != 'quick' or mode == 'local') else 3
                if up is None and mode in ('shared', 'all local', 'all shared', 'from parent'):
                    continue
                if tier == 'quick' and t in ('fork', 'deep') and mode.startswith('all'):
                    continue
                names = list(ABC[:k])
                b = 'any network over %s, any valid layout' % ''.join(names)
                if mode.startswith('updated'):
                    us.append(Unit('%s samplers, %s, group %s' % (mode, t, g), changed, (names, scramble(names, 0), t, g, mode == 'updated shared'), ['updated'], b))
                else:
                    us.append(Unit('%s samplers, %s, group %s' % (mode, t, g), samplers, (names, scramble(names, 0), t, g, mode), ['prepared'], b))
    return us
