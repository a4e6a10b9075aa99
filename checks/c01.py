"""C01: graph queries and prunings equal what directed paths define."""
from sims_pars.bayesnet.dag import DAG, merge_dag, get_offsprings
from .common import Unit, scramble, links, put, reach, edges_are, nodes_are

ABC = 'dbfahceg'
BOUNDS = 'every acyclic graph over n named nodes (n in the unit), two insertion orders, every node / subset of nodes as argument'
OUTSIDE = 'graphs with more nodes; the tie-breaking of topological orders'
ASSUMPTIONS = ['networkx graph primitives behave as modelled in symx/graph.py (checked by native replay of solver models)']


def graph(S, names, k, prefix='e_'):
    E = links(S, names, prefix)
    g = put(S, DAG(), names, scramble(names, k), E)
    return g, E, reach(S, names, E)


def unchanged(S, g, names, E):
    S.prove(nodes_are(S, g, names, {n: True for n in names}), 'nodes unchanged by a query')
    S.prove(edges_are(S, g, names, E), 'links unchanged by a query')


def queries(S, names, k):
    g, E, R = graph(S, names, k)
    S.reach('built')
    for n in names:
        S.prove(S.same(g.parents(n), {m for m in names if E.get((m, n), False)}), 'parents')
        S.prove(S.same(g.children(n), {m for m in names if E.get((n, m), False)}), 'children')
        S.prove(S.same(set(g.ancestors(n)), {m for m in names if R.get((m, n), False)}), 'ancestors')
        S.prove(S.same(set(g.descendants(n)), {m for m in names if R.get((n, m), False)}), 'descendants')
    S.prove(S.same(set(g.roots()), {n for n in names if S.not_(S.or_(*[E.get((m, n), False) for m in names]))}), 'roots')
    S.prove(S.same(set(g.leaves()), {n for n in names if S.not_(S.or_(*[E.get((n, m), False) for m in names]))}), 'leaves')
    S.prove(len(g.roots()) == len(set(g.roots())), 'roots listed once')
    S.prove(len(g.leaves()) == len(set(g.leaves())), 'leaves listed once')
    S.prove(g.check_acyclic(), 'acyclic')
    unchanged(S, g, names, E)


def sets(S, names, k):
    g, E, R = graph(S, names, k)
    ns = S.subset('in_', scramble(names, 1 - k))
    if len(ns) > 1:
        S.reach('several nodes')
    up = {m for m in names if S.or_(*[R.get((m, n), False) for n in names if n in ns])}
    dn = {m for m in names if S.or_(*[R.get((n, m), False) for n in names if n in ns])}
    S.prove(S.same(set(g.upstream(ns)), {m for m in names if S.or_(*[S.and_(n in ns, R.get((m, n), False)) for n in names])}), 'upstream')
    want = {m for m in names if S.or_(*[S.and_(n in ns, R.get((n, m), False)) for n in names])}
    S.prove(S.same(set(g.downstream(ns)), want), 'downstream')
    S.prove(S.same(set(get_offsprings(g, ns)), want), 'offspring')
    unchanged(S, g, names, E)


def orders(S, names, k):
    g, E, R = graph(S, names, k)
    ns = S.subset('in_', scramble(names, 1 - k))
    if len(ns) > 1:
        S.reach('several nodes')
    twice = ns + S.subset('again_', names)
    for what, res, want in (('order', g.order(), list(names)), ('sort', g.sort(ns), set(ns)), ('sorting a set', g.sort(set(ns)), set(ns)),
                            ('sorting with repetitions', g.sort(twice), set(twice))):
        S.prove(S.same(set(res), set(want)), what + ' lists the nodes')
        S.prove(len(res) == len(want), what + ' lists each node once')
        for (a, b), r in R.items():
            if a in res and b in res and r:
                S.prove(res.index(a) < res.index(b), what + ' lists parents first')
    unchanged(S, g, names, E)


def prune_edges(S, names, k, way):
    g, E, R = graph(S, names, k)
    n = S.choice('node', names)
    if way == 'in':
        g.remove_in_edges(n)
        want = {(a, b): S.and_(c, S.not_(b == n)) for (a, b), c in E.items()}
    else:
        g.remove_out_edges(n)
        want = {(a, b): S.and_(c, S.not_(a == n)) for (a, b), c in E.items()}
    S.reach('removed')
    S.prove(nodes_are(S, g, names, {m: True for m in names}), 'removing links into or out of a node keeps the nodes')
    S.prove(edges_are(S, g, names, want), 'exactly the links into or out of the node are removed')


def prune_nodes(S, names, k, way, single):
    g, E, R = graph(S, names, k)
    if single:
        n = S.choice('node', names)
        ns = [m for m in names if m == n]
        arg = n
    else:
        ns = S.subset('in_', scramble(names, 1 - k))
        arg = ns
    if way == 'up':
        gone = {m: S.or_(*[S.and_(x in ns, R.get((m, x), False)) for x in names]) for m in names}
        g.remove_upstream(arg)
    else:
        gone = {m: S.or_(*[S.and_(x in ns, R.get((x, m), False)) for x in names]) for m in names}
        g.remove_downstream(arg)
    S.reach('removed')
    left = {m: S.or_(m in ns, S.not_(gone[m])) for m in names}
    S.prove(nodes_are(S, g, names, left), 'exactly what lies upstream or downstream is removed')
    S.prove(edges_are(S, g, names, {(a, b): S.and_(c, left[a], left[b]) for (a, b), c in E.items()}), 'the other links stay')


def merging(S, names, k):
    E1, E2 = links(S, names, 'e_'), links(S, names, 'f_')
    S.hint(names)
    A, B = S.bools('p_', names), S.bools('q_', names)
    gs = []
    for E, P, o in ((E1, A, scramble(names, k)), (E2, B, scramble(names, 1 - k))):
        g = DAG()
        for n in o:
            if P[n]:
                g.add_node(n)
        for (a, b), c in E.items():
            if S.and_(c, P[a], P[b]):
                g.add_edge(a, b)
        gs.append(g)
    g1, g2 = gs
    m = merge_dag(g1, g2)
    S.reach('merged')
    S.prove(nodes_are(S, m, names, {n: S.or_(A[n], B[n]) for n in names}), 'merging unites the nodes')
    S.prove(edges_are(S, m, names, {e: S.or_(S.and_(E1[e], A[e[0]], A[e[1]]), S.and_(E2[e], B[e[0]], B[e[1]])) for e in E1}),
            'merging unites the links')
    for g, P, E in ((g1, A, E1), (g2, B, E2)):
        S.prove(nodes_are(S, g, names, P), 'merging keeps its inputs')
        S.prove(edges_are(S, g, names, {e: S.and_(E[e], P[e[0]], P[e[1]]) for e in E}), 'merging keeps its inputs')


def units(tier):
    n = 6 if tier == 'quick' else 7
    names = ABC[:n]
    b = 'all acyclic graphs on %d nodes' % n
    us = []
    for k in (0, 1):
        us.append(Unit('queries n=%d order %d' % (n, k), queries, (names, k), ['built'], b))
        us.append(Unit('sets of nodes n=%d order %d' % (n, k), sets, (names, k), ['several nodes'], b))
        us.append(Unit('orders n=%d order %d' % (n, k), orders, (names, k), ['several nodes'], b))
        us.append(Unit('merging n=%d order %d' % (n, k), merging, (names, k), ['merged'], b + ', two of them'))
        for way in ('in', 'out'):
            us.append(Unit('remove_%s_edges n=%d order %d' % (way, n, k), prune_edges, (names, k, way), ['removed'], b))
        for way in ('up', 'down'):
            for single in (False, True):
                us.append(Unit('remove_%sstream n=%d order %d%s' % (way, n, k, ' one node' if single else ''), prune_nodes,
                               (names, k, way, single), ['removed'], b))
    return us
