"""What the property harnesses share."""


class Unit:
    """one harness with its bounds; `expect`: labels that must be reached (no vacuous verdict)"""

    def __init__(self, label, fn, args=(), expect=(), bound='', unwind=40, timeout_ms=20000, budget=500, max_paths=4000):
        self.label, self.fn, self.args, self.expect, self.bound = label, fn, tuple(args), tuple(expect), bound
        self.unwind, self.timeout_ms, self.budget, self.max_paths = unwind, timeout_ms, budget, max_paths


def scramble(names, k):
    """insertion orders that differ from the topological one"""
    n = list(names)
    if k == 0:
        return n[::-1]
    if k == 1:
        return n[1::2] + n[0::2]
    return n


def links(S, names, prefix='e_'):
    """an arbitrary acyclic set of links over names (listed in a topological order): {(a, b): present}"""
    return {(a, b): S.bool(prefix + a + b) for i, a in enumerate(names) for b in names[i + 1:]}


def put(S, g, names, order, E):
    S.hint(names)
    for n in order:
        g.add_node(n)
    for (a, b), c in E.items():
        if c:
            g.add_edge(a, b)
    return g


def reach(S, names, E, block=None):
    """{(a, b)}: a directed path of at least one link from a to b; block[x]: paths may not pass into x (except at the end)"""
    R = {}
    for i in range(len(names) - 1, -1, -1):
        a = names[i]
        for b in names[i + 1:]:
            R[a, b] = S.or_(E[a, b], *[S.and_(E[a, w], R[w, b], True if block is None else S.not_(block[w]))
                                       for w in names[i + 1:] if (w, b) in R])
    return R


def edges_are(S, g, names, want):
    """the links of g among names are exactly want {(a, b): bool} (missing: absent)"""
    return S.and_(*[S.iff(g.has_edge(a, b), want.get((a, b), False)) for a in names for b in names])


def nodes_are(S, g, names, want):
    """want: {name: bool}"""
    return S.and_(S.same(set(g.nodes), {n for n in names if want[n]}), *[S.iff(n in g, want[n]) for n in names])
