"""C04: copying, JSON round-trips, merging and extending preserve definitions."""
from sims_pars.bayesnet.bn import BayesianNetwork, bayes_net_from_json
from .common import Unit, scramble
from .bnlib import EXO, VAL, FUN, RV, PSE, real_loci, has_parents, Shape

ABC = 'dbface'
BOUNDS = 'networks over n variables (n in the unit), each absent or of any kind with any set of parents; both frozen and unfrozen'
OUTSIDE = 'more variables; pseudo variables in merge and extend; parents read from definition texts (C09, C10); descriptions (Des)'
ASSUMPTIONS = ['networkx graph primitives behave as modelled in symx/graph.py (checked by native replay of solver models)']
TYPES = {EXO: 'ExoValue', VAL: 'Value', FUN: 'Function', RV: 'Distribution', PSE: 'Pseudo'}


def build(S, names, order, pre, tag, top, name):
    S.hint(names)
    bn = BayesianNetwork(name)
    sh = Shape(names)
    sh.tag = {}
    for n in order:
        if S.bool(pre + 'has_' + n):
            pas = S.subset(pre + 'p_' + n, [m for m in names if names.index(m) < names.index(n)])
            kind = S.int(pre + 'kind_' + n, 0, top)
            bn.append_loci(real_loci(kind, n, pas, tag))
            hp = has_parents(S, kind)
            for p in names:
                sh.link[p, n] = S.and_(hp, p in pas)
                sh.has[p] = S.or_(sh.has[p], sh.link[p, n])
            sh.has[n] = True
            sh.kind[n] = kind
            sh.tag[n] = tag
    for n in names:
        sh.tag.setdefault(n, tag)
    if S.bool(pre + 'frozen'):
        bn.complete()
    return bn, sh


def is_network(S, bn, sh, what, defs=True):
    """bn has exactly the variables, links and definitions of sh"""
    names = sh.names
    S.prove(S.same(set(bn.DAG.nodes), {n for n in names if sh.has[n]}), what + ': variables')
    for n in names:
        for m in names:
            S.prove(S.iff(bn.DAG.has_edge(m, n), sh.link[m, n]), what + ': links')
    for n in names:
        if n in bn:
            js = bn[n].to_json()
            S.prove(js['Name'] == n and bn[n].Name == n, what + ': names')
            k = sh.kind[n]
            for q, t in TYPES.items():
                if k == q:
                    S.prove(js['Type'] == t, what + ': kinds of variables')
                    if q in (VAL, FUN, RV) and defs:
                        S.prove(same_def(S, js['Def'], q, sh.tag[n]), what + ': definitions')
            S.prove(S.same(set(bn[n].Parents), {m for m in names if sh.link[m, n]}), what + ': parents')
    r = bn.Roots
    S.prove(S.same(set(r), {n for n in names if S.and_(sh.has[n], S.not_(S.or_(*[sh.link[m, n] for m in names])))}), what + ': roots')
    r = bn.Leaves
    S.prove(S.same(set(r), {n for n in names if S.and_(sh.has[n], S.not_(S.or_(*[sh.link[n, m] for m in names])))}), what + ': leaves')
    S.prove(S.same(set(bn.Exo), {n for n in names if S.and_(sh.has[n], sh.kind[n] == EXO)}), what + ': exogenous variables')
    anc = closure(S, names, sh.link)
    rr = {n for n in names if S.and_(sh.has[n], sh.kind[n] == RV, S.not_(S.or_(*[S.and_(anc[m, n], sh.kind[m] == RV) for m in names])))}
    S.prove(S.same(set(bn.RVRoots), rr), what + ': random roots')
    S.prove(S.same(set(bn.Order), {n for n in names if sh.has[n]}), what + ': order')


def same_def(S, d, kind, tags):
    """the definition d is the one made with this tag """
    return S.or_(*[S.and_(tags == t, d == real_loci(kind, 'x', [], t).to_json()['Def']) for t in (0, 1)])


def closure(S, names, link):
    R = dict(link)
    for w in names:
        for a in names:
            for b in names:
                if a != w and b != w:
                    R[a, b] = S.or_(R[a, b], S.and_(R[a, w], R[w, b]))
    return R


def duplicate(S, names, order, how, top):
    bn, sh = build(S, names, order, '', 0, top, 'N')
    bn.add_user_defined_func('fn', len)
    if how == 'copy':
        c = bn.copy()
    elif how == 'copy as':
        c = bn.copy('M')
    elif how == 'clone':
        c = bn.clone()
    elif how == 'extend':
        c = bn.extend()
    else:
        c = bayes_net_from_json(bn.to_json())
    S.reach('copied')
    S.prove(c.Name == ('M' if how == 'copy as' else 'N'), 'the name is kept, or the new one')
    S.prove(bn.Name == 'N', 'the name of the original is kept')
    is_network(S, c, sh, how)
    S.prove(S.and_(c is not bn, c.DAG is not bn.DAG), 'a new network')
    if how in ('copy', 'copy as'):
        S.prove('fn' in c.UserDefinedFunctions, 'user defined functions are copied')
        c.add_user_defined_func('gn', len)
        S.prove('gn' not in bn.UserDefinedFunctions, 'functions of the original are unchanged')
    # independence: changing either leaves the other
    fr = bn.is_frozen()
    c.defrost()
    S.prove(S.iff(bn.is_frozen(), fr), 'defrosting the copy leaves the original frozen')
    c.append_loci(real_loci(FUN, 'z', names[:1], 1))
    c.append_loci(real_loci(VAL, names[-1], [], 1))
    is_network(S, bn, sh, how + ', original after changing the copy')


def duplicate2(S, names, order, how, top):
    bn, sh = build(S, names, order, '', 0, top, 'N')
    c = bn.copy() if how == 'copy' else bn.clone()
    bn.defrost()
    bn.append_loci(real_loci(FUN, 'z', names[:1], 1))
    bn.append_loci(real_loci(VAL, names[-1], [], 1))
    S.reach('copied')
    is_network(S, c, sh, how + ' after changing the original')


def reordered(S, names):
    return names


def merging(S, names, k, rev):
    """rev: the second network orders the variables differently, the union of both must stay acyclic"""
    a, sa = build(S, names, scramble(names, k), 'a_', 0, RV, 'A')
    n2 = names if not rev else names[1:] + names[:1]
    b, sb = build(S, n2, scramble(n2, 1 - k), 'b_', 1, RV, 'B')
    want = Shape(names)
    want.tag = {}
    df = {}
    for n in names:
        d2 = S.and_(sb.has[n], sb.kind[n] != EXO)
        d1 = S.and_(sa.has[n], sa.kind[n] != EXO)
        df[n] = S.or_(d1, d2)
        if d2:
            want.kind[n] = sb.kind[n]
            want.tag[n] = 1
        elif d1:
            want.kind[n] = sa.kind[n]
            want.tag[n] = 0
        else:
            want.tag[n] = 0
        for m in names:
            want.link[m, n] = S.or_(S.and_(d2, sb.link[m, n]), S.and_(S.not_(d2), d1, sa.link[m, n]))
    for n in names:
        want.has[n] = S.or_(df[n], *[want.link[n, m] for m in names])
    if rev:
        cl = closure(S, names, want.link)
        S.assume(S.not_(S.or_(*[cl[n, n] for n in names])))
    fa, fb = a.is_frozen(), b.is_frozen()
    a.add_user_defined_func('fa', len)
    b.add_user_defined_func('fb', len)
    m = a.merge('M', b)
    S.reach('merged')
    S.prove(m.Name == 'M', 'merge: name')
    is_network(S, m, want, 'merge')
    S.prove(S.and_('fa' in m.UserDefinedFunctions, 'fb' in m.UserDefinedFunctions), 'merge: user defined functions')
    S.prove(S.and_(a.Name == 'A', b.Name == 'B', S.iff(a.is_frozen(), fa), S.iff(b.is_frozen(), fb),
                   'fb' not in a.UserDefinedFunctions, 'fa' not in b.UserDefinedFunctions), 'merge: inputs unchanged')
    is_network(S, a, sa, 'merge, first input')
    is_network(S, b, sb, 'merge, second input')


def extending(S, names, k, override):
    a, sa = build(S, names, scramble(names, k), 'a_', 0, RV, 'A')
    b, sb = build(S, names, scramble(names, 1 - k), 'b_', 1, RV, 'B')
    want = Shape(names)
    want.tag = {}
    for n in names:
        new = S.and_(sa.has[n], True if override else S.not_(sb.has[n]))
        want.has[n] = S.or_(sa.has[n], sb.has[n])
        if new:
            want.kind[n] = sa.kind[n]
            want.tag[n] = 0
        else:
            want.kind[n] = sb.kind[n]
            want.tag[n] = 1
        for m in names:
            want.link[m, n] = S.or_(S.and_(new, sa.link[m, n]), S.and_(S.not_(new), sb.link[m, n]))
    fa = a.is_frozen()
    r = a.extend(b, override=override)
    S.reach('extended')
    S.prove(r.Name == 'B', 'extend: name')
    is_network(S, r, want, 'extend')
    S.prove(S.and_(a.Name == 'A', S.iff(a.is_frozen(), fa)), 'extend: this network unchanged')
    is_network(S, a, sa, 'extend, this network')


def units(tier):
    n = 4 if tier == 'quick' else 5
    names = list(ABC[:n])
    us = []
    b = 'any network over %s, frozen or not' % ''.join(names)
    for k in (0, 2):
        for how in ('copy', 'copy as', 'clone', 'json', 'extend'):
            us.append(Unit('%s order %d' % (how, k), duplicate, (names, scramble(names, k), how, RV), ['copied'], b + ', no pseudo variables'))
        us.append(Unit('copy, then change the original, order %d' % k, duplicate2, (names, scramble(names, k), 'copy', RV), ['copied'], b))
        us.append(Unit('clone, then change the original, order %d' % k, duplicate2, (names, scramble(names, k), 'clone', RV), ['copied'], b))
    m = names[:3]
    for how in ('copy', 'clone', 'json', 'extend'):
        us.append(Unit('%s with pseudo variables' % how, duplicate, (m, scramble(m, 0), how, PSE), ['copied'], 'any network over %s' % ''.join(m)))
    for k in (0, 1):
        us.append(Unit('merge order %d' % k, merging, (names, k, False), ['merged'], 'any two networks over %s' % ''.join(names)))
        us.append(Unit('merge with different orders %d' % k, merging, (names[:3] if tier == 'quick' else names[:4], k, True), ['merged'],
                       'any two networks whose combination is acyclic'))
        for o in (True, False):
            us.append(Unit('extend override=%s order %d' % (o, k), extending, (names, k, o), ['extended'], 'any two networks over %s' % ''.join(names)))
    return us
