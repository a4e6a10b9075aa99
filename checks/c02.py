"""C02: requirement analysis is exact for any targets and given nodes."""
from sims_pars.bayesnet.dag import DAG, minimal_dag, minimal_requirements, get_sufficient_nodes, get_minimal_nodes
from .common import Unit, scramble, links, put, reach, edges_are, nodes_are

ABC = 'dbfahceg'
BOUNDS = 'every acyclic graph over n named nodes (n in the unit), two insertion orders, every set of targets and of given nodes'
OUTSIDE = 'graphs with more nodes; given names that are not nodes of the graph'
ASSUMPTIONS = ['networkx graph primitives behave as modelled in symx/graph.py (checked by native replay of solver models)']


def graph(S, names, k):
    E = links(S, names)
    g = put(S, DAG(), names, scramble(names, k), E)
    return g, E


def blocked(S, names, E, given):
    """{(a, b)}: a path of at least one link from a to b no link of which enters a given node"""
    return reach(S, names, {(a, b): S.and_(c, S.not_(b in given)) for (a, b), c in E.items()})


def unchanged(S, g, names, E):
    S.prove(nodes_are(S, g, names, {n: True for n in names}), 'nodes unchanged')
    S.prove(edges_are(S, g, names, E), 'links unchanged')


def collections(S, names, k, kind):
    g, E = graph(S, names, k)
    targets = S.subset('t_', scramble(names, k))
    given = S.subset('g_', scramble(names, 1 - k))
    if kind == 'repeating list':
        given = given + S.subset('gg_', names)
        targets = targets + S.subset('tt_', names)
    B = blocked(S, names, E, given)
    suf = {m for m in names if S.or_(m in targets, *[S.and_(n in targets, B.get((m, n), False)) for n in names])}
    if kind == 'dict':
        arg = {n: 1 for n in given}
    elif kind == 'set':
        arg = set(given)
    else:
        arg = given
    before = list(arg)
    r = get_sufficient_nodes(g, targets, arg)
    S.prove(S.same(set(r), suf), 'sufficient nodes')
    r = get_minimal_nodes(g, targets, arg)
    S.prove(S.same(set(r), {m for m in suf if m not in given}), 'minimal nodes')
    if len(targets) > 1 and len(given) > 1:
        S.reach('several targets and given nodes')
    S.prove(S.same(list(arg), before), 'the given nodes are not modified')
    unchanged(S, g, names, E)


def nothing_given(S, names, k):
    g, E = graph(S, names, k)
    targets = S.subset('t_', scramble(names, k))
    R = reach(S, names, E)
    suf = {m for m in names if S.or_(m in targets, *[S.and_(n in targets, R.get((m, n), False)) for n in names])}
    S.prove(S.same(set(get_sufficient_nodes(g, targets)), suf), 'sufficient nodes with nothing given')
    S.prove(S.same(set(get_sufficient_nodes(g, targets, None)), suf), 'sufficient nodes with nothing given')
    S.prove(S.same(set(get_minimal_nodes(g, targets, [])), suf), 'minimal nodes with nothing given')
    S.reach('done')
    unchanged(S, g, names, E)


def requirements(S, names, k):
    g, E = graph(S, names, k)
    given = S.subset('g_', scramble(names, 1 - k))
    if len(given) > 1:
        S.reach('several given nodes')
    for t in names:
        B = reach(S, names, {(a, b): S.and_(c, S.or_(b == t, S.not_(b in given))) for (a, b), c in E.items()})
        r = minimal_requirements(g, t, given)
        S.prove(S.same(set(r), {m for m in names if B.get((m, t), False)}), 'requirements of a node')
        S.prove(len(r) == len(set(r)), 'requirements listed once')
        for (a, b), c in E.items():
            if c and a in r and b in r:
                S.prove(r.index(a) < r.index(b), 'requirements in topological order')
    unchanged(S, g, names, E)


def connecting(S, names, k):
    g, E = graph(S, names, k)
    R = reach(S, names, E)
    ns = S.subset('in_', scramble(names, 1 - k))
    if len(ns) > 1:
        S.reach('several nodes')
    m = minimal_dag(g, ns)
    keep = {x: S.or_(x in ns, *[S.and_(a in ns, b in ns, R.get((a, x), False), R.get((x, b), False)) for a in names for b in names])
            for x in names}
    S.prove(nodes_are(S, m, names, keep), 'nodes of the connecting sub-network')
    S.prove(edges_are(S, m, names, {(a, b): S.and_(c, keep[a], keep[b]) for (a, b), c in E.items()}), 'links of the connecting sub-network')
    unchanged(S, g, names, E)


def units(tier):
    n = 6 if tier == 'quick' else 8
    names = ABC[:n]
    b = 'all acyclic graphs on %d nodes, all target and given sets' % n
    us = []
    for k in (0, 1):
        for kind in ('list', 'set', 'dict', 'repeating list'):
            us.append(Unit('collections n=%d order %d given as %s' % (n, k, kind), collections, (names, k, kind),
                           ['several targets and given nodes'], b))
        us.append(Unit('nothing given n=%d order %d' % (n, k), nothing_given, (names, k), ['done'], b))
        us.append(Unit('requirements n=%d order %d' % (n, k), requirements, (names, k), ['several given nodes'], b))
        m = ABC[:6] if tier == 'quick' else ABC[:7]
        us.append(Unit('connecting n=%d order %d' % (len(m), k), connecting, (m, k), ['several nodes'], b))
    return us
