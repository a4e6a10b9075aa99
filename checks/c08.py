"""C08: interventions on a chromosome propagate exactly downstream."""
import math
from sims_pars.bayesnet.chromosome import Chromosome
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, stub_network, values

ABC = 'dbfahcegji'
BOUNDS = 'networks over n variables of any kind and definitions; chromosomes with any of the variables; any values set or reset'
OUTSIDE = 'more variables; chromosomes lacking parents of a variable that must be re-rendered; resetting an exogenous variable; names in the chromosome but not in the network'
ASSUMPTIONS = ['definitions are arbitrary functions of the values of their parents; a draw is such a function whose noise is fixed']


def impulse(S, names, order, frozen):
    bn, w = stub_network(S, names, order, complete=frozen)
    x, y = values(S, names), values(S, names + ['other'], 'y_')
    vs = {}
    for n in order:
        if S.bool('has_' + n):
            vs[n] = x[n]
    old_lp = S.ext('lp', nan=False)
    ch = Chromosome(vs, old_lp)
    new = {}
    mode = {n: S.int('mode_' + n, 0, 2) for n in names}   # 0: untouched, 1: set, 2: reset
    for n in order[::-1]:
        if mode[n] == 1:
            new[n] = y[n]
        elif mode[n] == 2:
            new[n] = None
    if S.bool('set_other'):
        new['other'] = y['other']
    before = dict(new)
    # what must be rendered again
    change, again = {}, {}
    for i, n in enumerate(names):
        change[n] = S.and_(n in vs, mode[n] > 0)
        down = S.or_(*[S.and_(w.link[m, n], S.or_(change[m], w_down)) for m, w_down in
                       [(m, again[m, 'down']) for m in names[:i]]])
        again[n, 'down'] = down
        again[n] = S.and_(n in vs, S.or_(mode[n] == 2, S.and_(down, mode[n] != 1)))
        # an exogenous variable cannot be drawn, a definition needs its parents
        S.assume(S.implies(again[n], w.kind[n] != EXO))
        for m in names[:i]:
            S.assume(S.implies(S.and_(again[n], w.link[m, n]), m in vs))
    ch.impulse(new, bn)
    S.reach('intervened')
    S.prove(S.same(set(ch.Locus), set(vs)), 'no variable appears or disappears')
    S.prove(S.same(new, before), 'the intervention is unchanged')
    S.prove('other' not in ch, 'names which the chromosome does not have are ignored')
    for n in names:
        S.prove(w.drawn[n] == S_count(S, again[n]), 'exactly the affected variables are rendered, once')
        if n in vs:
            if again[n]:
                S.prove(S.close(ch[n], w.value(n, ch.Locus)), 're-rendered at the new values of the parents')
            elif mode[n] == 1:
                S.prove(S.close(ch[n], y[n]), 'set to the given value')
            else:
                S.prove(S.close(ch[n], x[n]), 'everything else is left as it was')
    changed = S.or_(*[S.or_(again[n], change[n]) for n in names])
    S.prove(S.iff(changed, S.not_(ch.is_evaluated())), 'the log probability is invalidated exactly when values are set')
    if S.not_(changed):
        S.prove(S.close(ch.LogProb, old_lp), 'the log probability is kept otherwise')


def S_count(S, c):
    r = 0
    if c:
        r = 1
    return r


def without(S, names):
    """without a network only the named variables change"""
    x, y = values(S, names), values(S, names + ['other'], 'y_')
    vs = {}
    for n in names:
        if S.bool('has_' + n):
            vs[n] = x[n]
    lp = S.ext('lp', nan=False)
    ch = Chromosome(vs, lp)
    new = {n: y[n] for n in S.subset('set_', names + ['other'])}
    before = dict(new)
    ch.impulse(new)
    S.reach('intervened')
    S.prove(S.same(set(ch.Locus), set(vs)), 'no variable appears or disappears')
    S.prove(S.same(new, before), 'the intervention is unchanged')
    for n in names:
        if n in vs:
            S.prove(S.close(ch[n], y[n] if n in new else x[n]), 'only the named variables change')
    hit = S.or_(*[S.and_(n in vs, n in new) for n in names])
    S.prove(S.iff(hit, S.not_(ch.is_evaluated())), 'the log probability is invalidated exactly when values are set')
    S.prove(S.implies(S.not_(hit), S.close(ch.LogProb, lp)), 'the log probability is kept otherwise')


def container(S, names):
    """item access, clones and json"""
    x, y = values(S, names), values(S, names, 'y_')
    vs = {}
    for n in names:
        if S.bool('has_' + n):
            vs[n] = x[n]
    lp = S.ext('lp')
    ch = Chromosome(vs, lp)
    cl = ch.clone()
    js = Chromosome.from_json(ch.to_json())
    # what the chromosome was built from may change afterwards
    src = dict(vs)
    for n in names:
        if S.bool('source_' + n):
            vs[n] = y[n]
    S.reach('built')
    for what, c in (('the chromosome', ch), ('clone', cl), ('json round trip', js)):
        S.prove(S.same(dict(c.Locus), src), what + ': values')
        S.prove(S.close(c.LogProb, lp), what + ': log probability')
        S.prove(len(c) == len(src), what + ': size')
        S.prove(S.same(set(c.keys()), set(src)), what + ': names')
        S.prove(S.same(dict(iter(c)), src), what + ': items')
        for n in names:
            S.prove(S.iff(n in c, n in src), what + ': membership')
            if n in src:
                S.prove(S.close(c[n], x[n]), what + ': access')
        S.prove(S.iff(c.is_evaluated(), S.not_(S.isnan(lp))), what + ': evaluated or not')
    k = S.choice('key', names)
    which = S.int('which', 0, 2)
    cs = [ch, cl, js]
    for i, c in enumerate(cs):
        if which == i:
            if S.bool('by impulse'):
                c.impulse({n: y[n] for n in names})
            else:
                c[k] = y[k]
                S.prove(S.close(c[k], y[k]), 'setting an item sets its value')
                S.prove(S.not_(c.is_evaluated()), 'setting an item invalidates the log probability')
    for i, c in enumerate(cs):
        if which != i:
            S.prove(S.same(dict(c.Locus), src), 'the others keep their values')
            S.prove(S.close(c.LogProb, lp), 'the others keep their log probability')


def units(tier):
    n = 6 if tier == 'quick' else 9
    names = list(ABC[:n])
    b = 'any network over %s' % ''.join(names)
    us = []
    for k in (0, 1, 2):
        for frozen in (True, False):
            us.append(Unit('intervention, order %d%s' % (k, ', frozen' if frozen else ''), impulse, (names, scramble(names, k), frozen), ['intervened'], b))
    us.append(Unit('intervention without a network', without, (names,), ['intervened'], 'any chromosome over %s' % ''.join(names)))
    us.append(Unit('items, clones and json', container, (names[:3],), ['built'], 'any chromosome over %s' % ''.join(names[:3])))
    return us
