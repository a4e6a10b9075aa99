"""C03: growing a network keeps it acyclic, consistent and atomic."""
from sims_pars.bayesnet.bn import BayesianNetwork
from .common import Unit, scramble, reach
from .bnlib import EXO, VAL, FUN, RV, PSE, real_loci, has_parents, Shape

ABC = 'dbface'
BOUNDS = 'networks over n variables (n in the unit), each absent or of any of the five kinds with any set of parents; then one further ' \
         'addition of any kind with any set of parents (also unknown ones, itself, or its dependents)'
OUTSIDE = 'more variables; definitions read from text (C09, C10)'
ASSUMPTIONS = ['networkx graph primitives behave as modelled in symx/graph.py (checked by native replay of solver models)']


def add(S, bn, sh, name, kind, pas, tag):
    """one addition that closes no cycle, and what it should do"""
    lo = real_loci(kind, name, pas, tag)
    bn.append_loci(lo)
    hp = has_parents(S, kind)
    for p in sh.names:
        sh.link[p, name] = S.and_(hp, p in pas)
        sh.has[p] = S.or_(sh.has[p], sh.link[p, name])
    sh.has[name] = True
    sh.kind[name] = kind
    sh.loci[name] = lo


def build(S, names, order):
    """an arbitrary network, built by additions in the given order (so variables may be used before they are defined)"""
    S.hint(names)
    bn = BayesianNetwork('N')
    sh = Shape(names)
    for n in order:
        if S.bool('has_' + n):
            pas = S.subset('p_' + n, [m for m in names if m < n])
            add(S, bn, sh, n, S.int('kind_' + n, 0, 4), pas, 0)
    return bn, sh


def structure(S, bn, sh, what):
    names = sh.names
    S.prove(S.same(set(bn.DAG.nodes), {n for n in names if sh.has[n]}), what + ': variables')
    for n in names:
        S.prove(S.iff(n in bn, sh.has[n]), what + ': variables')
        for m in names:
            S.prove(S.iff(bn.DAG.has_edge(m, n), sh.link[m, n]), what + ': links')
    for n in names:
        if n in bn:
            k = sh.kind[n]
            S.prove(S.iff(bn.is_rv(n), k == RV), what + ': random variables')
            S.prove(S.iff(bn.is_exogenous(n), S.or_(k == EXO, k == PSE)), what + ': exogenous or pseudo variables')
            S.prove(S.iff(bn.needs_calculation(n), S.or_(k == FUN, k == RV)), what + ': variables to be calculated')
            S.prove(bn[n].Name == n, what + ': definitions')
            if sh.loci[n] is not None:
                S.prove(S.is_(bn[n], sh.loci[n]), what + ': definitions')


def acyclic(S, bn, sh):
    S.prove(bn.DAG.check_acyclic(), 'the network is acyclic')


def reports(S, bn, sh, what):
    names = sh.names
    order = bn.Order
    S.prove(S.same(set(order), {n for n in names if sh.has[n]}), what + ': order lists the variables')
    S.prove(len(order) == len(set(order)), what + ': order lists each variable once')
    for (a, b), c in sh.link.items():
        if c:
            S.prove(order.index(a) < order.index(b), what + ': order is topological')
    S.prove(S.same(set(bn.Roots), {n for n in names if S.and_(sh.has[n], S.not_(S.or_(*[sh.link[m, n] for m in names])))}), what + ': roots')
    S.prove(S.same(set(bn.Leaves), {n for n in names if S.and_(sh.has[n], S.not_(S.or_(*[sh.link[n, m] for m in names])))}), what + ': leaves')
    S.prove(S.same(set(bn.Exo), {n for n in names if S.and_(sh.has[n], sh.kind[n] == EXO)}), what + ': exogenous variables')
    anc = closure(S, names, sh.link)
    rr = {n for n in names if S.and_(sh.has[n], sh.kind[n] == RV, S.not_(S.or_(*[S.and_(anc[m, n], sh.kind[m] == RV) for m in names])))}
    S.prove(S.same(set(bn.RVRoots), rr), what + ': random roots')
    for l in (bn.Roots, bn.Leaves, bn.Exo, bn.RVRoots):
        S.prove(len(l) == len(set(l)), what + ': each listed once')
    S.prove(S.same(set(bn.sort(names)), {n for n in names if sh.has[n]}), what + ': sort')


def closure(S, names, link):
    R = dict(link)
    for w in names:
        for a in names:
            for b in names:
                if a != w and b != w:
                    R[a, b] = S.or_(R[a, b], S.and_(R[a, w], R[w, b]))
    return R


def building(S, names, order):
    bn, sh = build(S, names, order)
    S.reach('built')
    structure(S, bn, sh, 'built')
    acyclic(S, bn, sh)
    reports(S, bn, sh, 'not frozen')
    bn.complete()
    S.prove(bn.is_frozen(), 'frozen after completion')
    structure(S, bn, sh, 'frozen')
    reports(S, bn, sh, 'frozen')


def addition(S, names, order, x, again):
    """any network, then one addition of x with any parents"""
    bn, sh = build(S, names, order)
    if again:
        bn.complete()
        bn.defrost()
    others = [n for n in names] + ['z']
    kind = S.int('kind', 0, 4)
    pas = S.subset('q_', others)
    hp = has_parents(S, kind)
    anc = closure(S, names, sh.link)
    bad = S.and_(hp, S.or_(x in pas, *[S.and_(p in pas, anc[x, p]) for p in names]))
    full = Shape(others)
    for n in names:
        full.has[n], full.kind[n], full.loci[n] = sh.has[n], sh.kind[n], sh.loci[n]
        for m in names:
            full.link[m, n] = sh.link[m, n]
    before = {n: bn[n] for n in names if n in bn}
    failed = False
    try:
        add(S, bn, full, x, kind, pas, 1)
    except AttributeError:
        failed = True
    S.prove(S.iff(failed, bad), 'rejected exactly when it would close a cycle')
    if failed:
        S.reach('rejected')
        structure(S, bn, sh, 'rejected')
        for n in names:
            if n in bn:
                S.prove(S.is_(bn[n], before[n]), 'rejected: definitions kept')
        S.prove('z' not in bn, 'rejected: nothing new')
        acyclic(S, bn, sh)
    else:
        S.reach('accepted')
        structure(S, bn, full, 'added')
        for n in names:
            if S.and_(n in before, n != x):
                S.prove(S.is_(bn[n], before[n]), 'added: other definitions kept')
        acyclic(S, bn, full)


def readd_order(S, names, order, x):
    """after an accepted addition, frozen or not, the reports are those of the new structure"""
    bn, sh = build(S, names, order)
    bn.complete()
    bn.defrost()
    S.prove(S.not_(bn.is_frozen()), 'defrosted')
    kind = S.int('kind', 0, 4)
    pas = S.subset('q_', names)
    hp = has_parents(S, kind)
    anc = closure(S, names, sh.link)
    S.assume(S.not_(S.and_(hp, S.or_(x in pas, *[S.and_(p in pas, anc[x, p]) for p in names]))))
    add(S, bn, sh, x, kind, pas, 1)
    S.reach('added')
    reports(S, bn, sh, 'after a further addition')
    bn.complete()
    reports(S, bn, sh, 'after completing again')


def frozen(S, names, order, x):
    bn, sh = build(S, names, order)
    bn.complete()
    kind = S.int('kind', 0, 4)
    pas = S.subset('q_', names)
    lo = real_loci(kind, x, pas, 1)
    ok = False
    try:
        bn.append_loci(lo)
        ok = True
    except AttributeError:
        S.reach('rejected')
    S.prove(S.not_(ok), 'a frozen network rejects additions')
    structure(S, bn, sh, 'frozen')
    bn.defrost()
    structure(S, bn, sh, 'defrosted')
    reports(S, bn, sh, 'defrosted')


def units(tier):
    n = 4 if tier == 'quick' else 5
    names = list(ABC[:n])
    big = list(ABC[:n + 1])
    us = []
    for k in (0, 1, 2):
        b = 'any network over %s' % ''.join(big)
        us.append(Unit('building n=%d order %d' % (len(big), k), building, (big, scramble(big, k)), ['built'], b))
    for k in (0, 2):
        b = 'any network over %s and any addition' % ''.join(names)
        for x in names:
            us.append(Unit('adding %s order %d' % (x, k), addition, (names, scramble(names, k), x, k == 0), ['rejected', 'accepted'], b))
            us.append(Unit('reports after adding %s order %d' % (x, k), readd_order, (names, scramble(names, k), x), ['added'], b))
        us.append(Unit('adding to a frozen network order %d' % k, frozen, (names, scramble(names, k), 'b'), ['rejected'], b))
    return us
