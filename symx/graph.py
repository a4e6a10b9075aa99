"""Directed graphs with guarded nodes and links: the symbolic model of networkx.DiGraph and of the networkx functions."""
import networkx as nx
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, UNDEF, Unsupported, mk_bool, merge, merge_all, simp, raise_, raise_if,
                   as_bool, truth, lift_union, resolve)
from .containers import IList, ISet, IDict, entries, flat_keys, contains, dict_items, count, const_of
from .interp import INTERP, Iter, DICTGET

M = INTERP.models
HINT = []       # topological order of names used by the harness; links against it are handled by forking


def E():
    return core.ENG


def hint_pos(n):
    if n not in HINT:
        HINT.append(n)
    return HINT.index(n)


def cnt(es):
    n = count(es)
    k = const_of(n)
    return k if k is not None else n


class SymGraph(nx.DiGraph):
    __sx__ = True

    def sx_setup(self):
        d = DICTGET(self)
        d['_n'] = {}        # label -> guard
        d['_at'] = {}       # label -> IDict
        d['_e'] = {}        # (u, v) -> guard
        d['_ea'] = {}       # (u, v) -> IDict
        d['_g0'] = E().g
        d['graph'] = IDict()
        d['frozen'] = False
        E().objg[id(self)] = (E().g, self)

    def sx_rel(self):
        return E().g.rel(self._g0)

    # -- attribute access: methods not modelled work on a concrete copy
    def sx_getattr(self, name):
        for k in type(self).__mro__:
            if k is nx.DiGraph:
                break
            if name in k.__dict__:
                return UNDEF
        if name in DICTGET(self):
            return UNDEF
        if name.startswith(('add_', 'remove_', 'clear', 'update', '_')) or not hasattr(nx.DiGraph, name):
            if not hasattr(nx.DiGraph, name):
                return UNDEF
            raise Unsupported('graph method ' + name)
        return getattr(self.sx_concrete(), name)

    def sx_concrete(self):
        if not self.sx_plain():
            for x, c in list(self._n.items()):
                c = E().decide(c)
                self._n[x] = c
            self._n.update()
            d = DICTGET(self)
            d['_n'] = {x: True for x, c in self._n.items() if c}
            es = {}
            for uv, c in list(self._e.items()):
                if E().decide(c):
                    es[uv] = True
            d['_e'] = es
        cls = type(self).sx_type
        g = nx.DiGraph.__new__(cls)
        nx.DiGraph.__init__(g)
        for x in self._n:
            g.add_node(x, **{k: v for k, v in dict.items(self._at[x].concretise())})
        for (u, v) in self._e:
            g.add_edge(u, v)
        if as_bool(self.frozen) is True:
            nx.freeze(g)
        return g

    def sx_plain(self):
        return all(c is True for c in self._n.values()) and all(c is True for c in self._e.values())

    def sx_copy(self, deep):
        return self.copy()

    def sx_truth(self):
        return OR(*self._n.values())

    def sx_len(self):
        return cnt([(c, x) for x, c in self._n.items()])

    __len__ = number_of_nodes = sx_len

    def sx_entries(self):
        return [(c, x) for x, c in self._n.items()]

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def sx_contains(self, k):
        if type(k) in (list, IList, set, ISet, dict, IDict):
            return False
        return OR(*[AND(c, self._n.get(x, False)) for c, x in flat_keys(True, k)])

    def has_node(self, k):
        return mk_bool(self.sx_contains(k))

    def sx_getitem(self, k):
        return self.succ[k]

    # -- mutation
    def sx_check(self):
        f = truth(resolve(self.frozen))
        raise_if(f, nx.NetworkXError("Frozen graph can't be modified"))

    def sx_add(self, n, c):
        self._n[n] = OR(self._n.get(n, False), c)
        if n not in self._at:
            self._at[n] = IDict()
            self._at[n]._g0 = self._g0
        hint_pos(n)

    def add_node(self, n, **attr):
        self.sx_check()
        for c, x in flat_keys(self.sx_rel(), n):
            if c is False:
                continue
            was = self._n.get(x, False)
            self.sx_add(x, c)
            if attr:
                at = self._at[x]
                items = at._items()
                for k, v in attr.items():
                    IDict._put(items, c, k, v)
                at._set(items)

    def add_nodes_from(self, ns, **attr):
        for c, n in entries(ns):
            def one(n=n):
                if type(n) is tuple and len(n) == 2 and isinstance(n[1], dict):
                    a = dict(attr)
                    a.update(dict.items(n[1].concretise()) if isinstance(n[1], IDict) else n[1])
                    self.add_node(n[0], **a)
                else:
                    self.add_node(n, **attr)
            self.sx_under(c, one)

    def sx_under(self, c, fn):
        from .models import guarded
        guarded(c, fn)

    def add_edge(self, u, v, **attr):
        self.sx_check()
        for c, x in flat_keys(self.sx_rel(), u):
            for c2, y in flat_keys(c, v):
                if c2 is False:
                    continue
                self.sx_add(x, c2)
                self.sx_add(y, c2)
                self._e[x, y] = OR(self._e.get((x, y), False), c2)
                if attr:
                    self._ea.setdefault((x, y), IDict()).update(attr)

    def add_edges_from(self, es, **attr):
        for c, e in entries(es):
            self.sx_under(c, lambda: self.add_edge(*INTERP.unpack(e, 2, None) if not (type(e) is tuple and len(e) == 3)
                                                   else e[:2], **attr))

    def remove_edge(self, u, v):
        self.sx_check()
        raise_if(NOT(as_bool(self.has_edge(u, v))), nx.NetworkXError('The edge is not in the graph.'))
        self.sx_cut(u, v)

    def sx_cut(self, u, v):
        for c, x in flat_keys(self.sx_rel(), u):
            for c2, y in flat_keys(c, v):
                if (x, y) in self._e:
                    g = AND(self._e[x, y], NOT(c2))
                    if g is False:
                        del self._e[x, y]
                    else:
                        self._e[x, y] = g

    def remove_edges_from(self, es):
        self.sx_check()
        for c, e in entries(es):
            self.sx_under(c, lambda: self.sx_cut(*e[:2]))

    def sx_drop(self, n):
        for c, x in flat_keys(self.sx_rel(), n):
            if x not in self._n:
                continue
            for (u, v) in list(self._e):
                if x in (u, v):
                    g = AND(self._e[u, v], NOT(c))
                    if g is False:
                        del self._e[u, v]
                    else:
                        self._e[u, v] = g
            g = AND(self._n[x], NOT(c))
            if g is False:
                del self._n[x]
                self._at.pop(x, None)
            else:
                self._n[x] = g

    def remove_node(self, n):
        self.sx_check()
        raise_if(NOT(self.sx_contains(n)), nx.NetworkXError('The node is not in the digraph.'))
        self.sx_drop(n)

    def remove_nodes_from(self, ns):
        self.sx_check()
        es = entries(ns)
        for c, n in es:
            self.sx_under(c, lambda: self.sx_drop(n))

    def clear(self):
        self.remove_nodes_from(IList.of(self.sx_entries()))

    # -- queries
    def has_edge(self, u, v):
        return mk_bool(OR(*[AND(c, self._e.get((x, y), False), self._n.get(x, False), self._n.get(y, False))
                            for c0, x in flat_keys(True, u) for c, y in flat_keys(c0, v)]))

    has_successor = has_edge

    def has_predecessor(self, u, v):
        return self.has_edge(v, u)

    def sx_need(self, n):
        raise_if(NOT(self.sx_contains(n)), nx.NetworkXError('The node %s is not in the digraph.' % (n,)))

    def sx_nbrs(self, n, rev):
        """{label: guard} of neighbours of n"""
        out = {}
        for c, x in flat_keys(True, n):
            for (u, v), g in self._e.items():
                if (v if rev else u) == x:
                    y = u if rev else v
                    out[y] = OR(out.get(y, False), AND(c, g))
        return out

    def predecessors(self, n):
        self.sx_need(n)
        return Iter([(c, x) for x, c in self.sx_nbrs(n, True).items() if c is not False])

    def successors(self, n):
        self.sx_need(n)
        return Iter([(c, x) for x, c in self.sx_nbrs(n, False).items() if c is not False])

    neighbors = successors

    def sx_map(self, rev):
        return AdjView(self, rev)

    @property
    def pred(self):
        return self.sx_map(True)

    @property
    def succ(self):
        return self.sx_map(False)

    adj = _adj = _succ = succ
    _pred = pred

    @property
    def nodes(self):
        return NodesView(self)

    @property
    def _node(self):
        return NodesView(self)

    @property
    def edges(self):
        return EdgesView(self, None, None)

    out_edges = edges

    @property
    def in_edges(self):
        return EdgesView(self, None, True)

    @property
    def in_degree(self):
        return DegView(self, True)

    @property
    def out_degree(self):
        return DegView(self, False)

    def number_of_edges(self, *a):
        return cnt([(c, e) for e, c in self._e.items()])

    size = number_of_edges

    def is_directed(self):
        return True

    def is_multigraph(self):
        return False

    def sx_new(self):
        cls = type(self).sx_type
        g = SYM(cls).__new__(SYM(cls))
        g.sx_setup()
        return g

    def copy(self, as_view=False):
        g = self.sx_new()
        for x, c in self._n.items():
            g.sx_add(x, c)
            g._at[x]._set(self._at[x]._items())
        for uv, c in self._e.items():
            g._e[uv] = c
        return g

    def reverse(self, copy=True):
        g = self.sx_new()
        for x, c in self._n.items():
            g.sx_add(x, c)
            g._at[x]._set(self._at[x]._items())
        for (u, v), c in self._e.items():
            g._e[v, u] = c
        if not copy:
            DICTGET(g)['frozen'] = True
        return g

    def subgraph(self, ns):
        keep = {}
        if not isinstance(ns, (list, set, tuple, dict, str)) and not hasattr(type(ns), 'sx_entries'):
            ns = [ns]
        for c, n in ([(True, ns)] if isinstance(ns, str) else entries(ns)):
            for c2, x in flat_keys(c, n):
                keep[x] = OR(keep.get(x, False), c2)
        g = self.sx_new()
        for x, c in self._n.items():
            k = AND(c, keep.get(x, False))
            if k is False:
                continue
            g.sx_add(x, k)
            g._at[x] = self._at[x]
        for (u, v), c in self._e.items():
            k = AND(c, g._n.get(u, False), g._n.get(v, False))
            if k is not False:
                g._e[u, v] = k
        DICTGET(g)['frozen'] = True
        return g

    def edge_subgraph(self, es):
        raise Unsupported('edge_subgraph')

    def to_directed(self, as_view=False):
        return self.copy()

    def nbunch_iter(self, ns=None):
        if ns is None:
            return Iter(self.sx_entries())
        return Iter([(AND(c, self.sx_contains(n)), n) for c, n in entries(ns)])

    def __repr__(self):
        return 'SymGraph(%s; %s)' % (self._n, self._e)

    # -- reachability
    def sx_closure(self):
        """{(u, v): guard of a directed path of at least one link}"""
        key = tuple(sorted(((uv, c if isinstance(c, bool) else core.info(c).id) for uv, c in self._e.items()), key=str))
        hit = E().fn_terms.setdefault('closure', {}).get(key)
        if hit is not None:
            return hit[0]
        ns = [x for x in self._n]
        fwd = all(hint_pos(u) < hint_pos(v) for u, v in self._e)
        r = {}
        if fwd:
            order = sorted(ns, key=hint_pos)
            for i in reversed(range(len(order))):
                u = order[i]
                outs = [(w, self._e[u, w]) for w in order[i + 1:] if (u, w) in self._e]
                for v in order[i + 1:]:
                    c = OR(*[AND(e, True if w == v else r.get((w, v), False)) for w, e in outs])
                    if c is not False:
                        r[u, v] = c
        else:
            r = dict(self._e)
            for w in ns:
                for u in ns:
                    a = r.get((u, w), False)
                    if a is False:
                        continue
                    for v in ns:
                        b = r.get((w, v), False)
                        if b is False:
                            continue
                        r[u, v] = OR(r.get((u, v), False), AND(a, b))
        E().fn_terms['closure'][key] = (r, dict(self._e))
        return r

    def sx_cyclic(self):
        if all(hint_pos(u) < hint_pos(v) for u, v in self._e):
            return False
        r = self.sx_closure()
        return OR(*[r.get((x, x), False) for x in self._n])

    def sx_topo(self):
        """guarded labels in a topological order"""
        if any(hint_pos(u) >= hint_pos(v) and E().feasible(c) for (u, v), c in self._e.items()):
            # fork on the order: repeatedly a node without links from the remaining ones
            out, rest = [], sorted(self._n, key=hint_pos)
            while rest:
                for x in rest:
                    if not E().decide(OR(*[self._e.get((u, x), False) for u in rest])):
                        out.append((self._n[x], x))
                        rest.remove(x)
                        break
                else:
                    raise_(nx.NetworkXUnfeasible('Graph contains a cycle or graph changed during iteration'))
            return out
        return [(self._n[x], x) for x in sorted(self._n, key=hint_pos)]


class AdjView:
    """pred/succ mapping (live)"""
    __sx__ = True
    sx_setlike = True

    def __init__(self, g, rev):
        self.g, self.rev = g, rev

    def sx_entries(self):
        return self.g.sx_entries()

    def sx_len(self):
        return self.g.sx_len()

    def sx_contains(self, k):
        return self.g.sx_contains(k)

    def sx_getitem(self, n):
        raise_if(NOT(self.g.sx_contains(n)), KeyError(n))
        return self.row(n)

    __getitem__ = sx_getitem

    def row(self, n):
        return IDict.of({x: (c, self.g._ea.setdefault((x, n) if self.rev else (n, x), IDict()))
                         for x, c in self.g.sx_nbrs(n, self.rev).items() if c is not False})

    def get(self, n, d=None):
        return INTERP.ite(self.g.sx_contains(n), lambda: self.row(n), lambda: d)

    def items(self):
        return IList.of([(c, (x, self.row(x))) for c, x in self.g.sx_entries()])

    def keys(self):
        return ISet.of({x: c for c, x in self.g.sx_entries()})

    def values(self):
        return IList.of([(c, self.row(x)) for c, x in self.g.sx_entries()])

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def sx_items(self):
        return [(c, x, self.row(x)) for c, x in self.g.sx_entries()]


class NodesView:
    __sx__ = True
    sx_setlike = True

    def __init__(self, g):
        self.g = g

    def sx_entries(self):
        return self.g.sx_entries()

    def sx_len(self):
        return self.g.sx_len()

    def sx_contains(self, k):
        return self.g.sx_contains(k)

    def sx_getitem(self, n):
        if type(n) is Union:
            return lift_union(n, self.sx_getitem)
        raise_if(NOT(self.g.sx_contains(n)), KeyError(n))
        return self.g._at[n]

    __getitem__ = sx_getitem

    def get(self, n, d=None):
        return INTERP.ite(self.g.sx_contains(n), lambda: self.g._at[n], lambda: d)

    def at(self, x, data, default):
        if data is True:
            return (x, self.g._at[x])
        if data is False:
            return x
        return (x, self.g._at[x].get(data, default))

    def __call__(self, data=False, default=None):
        if data is False:
            return self
        return IList.of([(c, self.at(x, data, default)) for c, x in self.g.sx_entries()])

    def data(self, data=True, default=None):
        return self(data, default)

    def items(self):
        return self(True)

    def keys(self):
        return self

    def values(self):
        return IList.of([(c, self.g._at[x]) for c, x in self.g.sx_entries()])

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def sx_items(self):
        return [(c, x, self.g._at[x]) for c, x in self.g.sx_entries()]

    def _set(self):
        return ISet.of({x: c for c, x in self.sx_entries()})

    def __or__(self, o):
        return self._set() | ISet(o)

    def __and__(self, o):
        return self._set() & ISet(o)

    def __sub__(self, o):
        return self._set() - ISet(o)

    def __rsub__(self, o):
        return ISet(o) - self._set()

    __ror__ = __or__
    __rand__ = __and__

    def sx_eq(self, o):
        from .containers import eq
        return eq(self._set(), o._set() if isinstance(o, NodesView) else ISet(o))


class EdgesView:
    __sx__ = True
    sx_setlike = True

    def __init__(self, g, nb, rev):
        self.g, self.nb, self.rev = g, nb, rev

    def sx_entries(self):
        out = []
        for (u, v), c in self.g._e.items():
            if self.nb is not None:
                c = AND(c, self.nb.get(v if self.rev else u, False))
            if c is not False:
                out.append((c, (u, v)))
        return out

    def sx_len(self):
        return cnt(self.sx_entries())

    def sx_contains(self, k):
        return as_bool(self.g.has_edge(k[0], k[1]))

    def __call__(self, nbunch=None, data=False, default=None):
        if nbunch is None:
            v = self
        else:
            nb = {}
            if isinstance(nbunch, str) or type(nbunch) is Union:
                nbunch = [nbunch]
            for c, n in entries(nbunch):
                for c2, x in flat_keys(c, n):
                    nb[x] = OR(nb.get(x, False), c2)
            v = EdgesView(self.g, nb, self.rev)
        if data is False:
            return v
        return IList.of([(c, (a, b, IDict() if data is True else default)) for c, (a, b) in v.sx_entries()])

    def data(self, data=True, default=None):
        return self(None, data, default)

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def _set(self):
        return ISet.of({x: c for c, x in self.sx_entries()})

    def sx_eq(self, o):
        from .containers import eq
        return eq(self._set(), o._set() if isinstance(o, EdgesView) else ISet(o))


class DegView:
    __sx__ = True

    def __init__(self, g, rev):
        self.g, self.rev = g, rev

    def sx_getitem(self, n):
        self.g.sx_need(n)
        return cnt([(c, x) for x, c in self.g.sx_nbrs(n, self.rev).items()])

    __getitem__ = sx_getitem

    def sx_entries(self):
        return [(c, (x, self.sx_deg(x))) for c, x in self.g.sx_entries()]

    def sx_deg(self, x):
        return cnt([(c, y) for y, c in self.g.sx_nbrs(x, self.rev).items()])

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def __call__(self, n=None):
        if n is None:
            return self
        if isinstance(n, str) or type(n) is Union:
            return self.sx_getitem(n)
        return IList.of([(c, (x, self.sx_deg(x))) for c, x in entries(n)])


_syms = {}


def SYM(cls):
    r = _syms.get(cls)
    if r is None:
        bases = (cls, SymGraph) if cls is not nx.DiGraph else (SymGraph,)
        r = type('Sym' + cls.__name__, bases, {'sx_type': cls, '__module__': cls.__module__})
        _syms[cls] = r
    return r


def new_graph(cls, args, kw):
    if issubclass(cls, SymGraph):
        cls = cls.sx_type
    k = SYM(cls)
    g = k.__new__(k)
    g.sx_setup()
    INTERP.call(k.__init__, (g,) + tuple(args), kw)
    return g


INTERP.new_models.append((lambda c: isinstance(c, type) and issubclass(c, nx.DiGraph) and
                          not issubclass(c, nx.MultiDiGraph), new_graph))


def m_init(self, incoming_graph_data=None, **attr):
    d = incoming_graph_data
    if type(d) is Union:
        return lift_union(d, lambda x: m_init(self, x, **attr))
    if d is None:
        return
    if isinstance(d, SymGraph):
        rel = self.sx_rel()
        for x, c in d._n.items():
            self.sx_add(x, AND(rel, c))
            items = self._at[x]._items()
            for k, (c2, v) in d._at[x]._items().items():
                IDict._put(items, AND(rel, c, c2), k, v)
            self._at[x]._set(items)
        for uv, c in d._e.items():
            self._e[uv] = OR(self._e.get(uv, False), AND(rel, c))
    elif isinstance(d, nx.Graph):
        self.add_nodes_from(IList([(n, dict(a)) for n, a in d.nodes.data()]))
        self.add_edges_from(IList(list(d.edges())))
    elif isinstance(d, dict):
        for n, (c, vs) in dict_items(d).items():
            self.sx_under(c, lambda: (self.add_node(n), self.add_edges_from(
                IList.of([(c2, (n, v)) for c2, v in entries(vs)]))))
    else:
        self.add_edges_from(d)


M[nx.DiGraph.__init__] = m_init
M[SymGraph.__init__] = m_init


def gmodel(f):
    def d(h):
        def k(g, *a, **kw):
            if type(g) is Union:
                return lift_union(g, lambda x: k(x, *a, **kw))
            if not isinstance(g, SymGraph):
                return INTERP.native(f, (g,) + a, kw)
            return h(g, *a, **kw)
        M[f] = k
        return h
    return d


@gmodel(nx.ancestors)
def m_anc(g, n):
    g.sx_need(n)
    r = g.sx_closure()
    return ISet.of({x: OR(*[AND(c, r.get((x, y), False)) for c, y in flat_keys(True, n)]) for x in g._n})


@gmodel(nx.descendants)
def m_des(g, n):
    g.sx_need(n)
    r = g.sx_closure()
    return ISet.of({x: OR(*[AND(c, r.get((y, x), False)) for c, y in flat_keys(True, n)]) for x in g._n})


@gmodel(nx.topological_sort)
def m_topo(g):
    return Iter(g.sx_topo())


@gmodel(nx.lexicographical_topological_sort)
def m_ltopo(g, key=None):
    return IList(list(nx.lexicographical_topological_sort(g.sx_concrete(), key)))


@gmodel(nx.topological_generations)
def m_gens(g):
    return IList([IList(x) for x in nx.topological_generations(g.sx_concrete())])


@gmodel(nx.is_directed_acyclic_graph)
def m_isdag(g):
    return mk_bool(NOT(g.sx_cyclic()))


@gmodel(nx.has_path)
def m_haspath(g, s, t):
    for n in (s, t):
        raise_if(NOT(g.sx_contains(n)), nx.NodeNotFound('node not in graph'))
    r = g.sx_closure()
    return mk_bool(OR(*[AND(c, True if x == y else r.get((x, y), False)) for c0, x in flat_keys(True, s)
                        for c, y in flat_keys(c0, t)]))


@gmodel(nx.all_simple_paths)
def m_paths(g, s, t, cutoff=None):
    if cutoff is not None and type(cutoff) is not int:
        raise Unsupported('path cutoff')
    for n in (s, t):
        raise_if(NOT(g.sx_contains(n)), nx.NodeNotFound('node not in graph'))
    out = []
    for c0, x in flat_keys(True, s):
        for c1, y in flat_keys(c0, t):
            if c1 is False:
                continue
            if x == y:
                out.append((c1, IList([x])))
                continue

            def dfs(path, c):
                u = path[-1]
                if cutoff is not None and len(path) > cutoff:
                    return
                for (a, b), e in list(g._e.items()):
                    if a != u or b in path:
                        continue
                    c2 = AND(c, e)
                    if c2 is False:
                        continue
                    if b == y:
                        out.append((c2, IList(path + [b])))
                    else:
                        dfs(path + [b], c2)
            dfs([x], c1)
    return IList.of(out)


@gmodel(nx.compose)
def m_compose(g, h):
    r = g.sx_new()
    for q in (g, h):
        for x, c in q._n.items():
            r.sx_add(x, c)
            items = r._at[x]._items()
            for k, (c2, v) in q._at[x]._items().items():
                IDict._put(items, AND(c, c2), k, v)
            r._at[x]._set(items)
        for uv, c in q._e.items():
            r._e[uv] = OR(r._e.get(uv, False), c)
    return r


@gmodel(nx.freeze)
def m_freeze(g):
    INTERP.setattr(g, 'frozen', True)
    return g


@gmodel(nx.is_frozen)
def m_isfrozen(g):
    return resolve(g.frozen)


@gmodel(nx.subgraph)
def m_subgraph(g, ns):
    return g.subgraph(ns)


@gmodel(nx.induced_subgraph)
def m_subgraph2(g, ns):
    return g.subgraph(ns)


@gmodel(nx.transitive_closure)
def m_tc(g, *a, **k):
    r = g.copy()
    for (u, v), c in g.sx_closure().items():
        r._e[u, v] = OR(r._e.get((u, v), False), c)
    return r


@gmodel(nx.descendants_at_distance)
def m_dad(g, n, k):
    return ISet(nx.descendants_at_distance(g.sx_concrete(), INTERP.concrete(n, 'node'), k))
