"""C10: distribution arguments bind like a call, with defaults and validation."""
import ast
import itertools
import math
import numpy as np
from pydantic import ValidationError
from sims_pars.prob import parse_distribution, complete_function, DistributionCentre
from sims_pars.bayesnet.loci import DistributionLoci, parse_loci, loci_from_json
from .common import Unit

BOUNDS = 'every registered distribution, every split of its parameters into positional, named (in two orders) and omitted ones, arguments of six forms over one variable each, all real values of the variables'
OUTSIDE = 'more positional arguments than parameters and names that are no parameters (both ignored by the code); unpacked arguments; infinite and not-a-number values; distributions registered by users'
ASSUMPTIONS = ['pydantic accepts a value of a field exactly within the field\'s declared type and limits (replayed against pydantic itself)']

POS, NONNEG, ANY, PROB, COUNT, OVER2 = 'positive', 'not negative', 'any', 'a probability', 'a positive whole number', 'above two'
FAMS = {
    'k': [('k', 0, ANY)],
    'gamma': [('shape', 1, POS), ('rate', 1, POS)],
    'exp': [('rate', 1, POS)],
    'lnorm': [('meanlog', 0, NONNEG), ('sdlog', 1, POS)],
    'unif': [('min', 0, ANY), ('max', 1, ANY)],
    'chisq': [('df', 1, POS)],
    'beta': [('shape1', 1, POS), ('shape2', 1, POS)],
    'invgamma': [('a', None, OVER2), ('rate', 1, POS)],
    'norm': [('mean', 0, ANY), ('sd', 1, POS)],
    'triangle': [('a', 0, ANY), ('m', 0.5, ANY), ('b', 1, ANY)],
    'binom': [('size', 1, COUNT), ('prob', 0.5, PROB)],
    'pois': [('lam', 1, POS)],
}
# forms of an argument: text and value
FORMS = [('%s', lambda v: v), ('%s + 1', lambda v: v + 1), ('2*%s', lambda v: 2 * v), ('abs(-%s)', lambda v: abs(-v)),
         ('ifelse(%s>0.25, %s, 0.25)', lambda v: v if v > 0.25 else 0.25), ('(%s - 0.125)/2', lambda v: (v - 0.125) / 2)]
NAMES = ('x1', 'beta', 'rate')


def inside(S, kind, v):
    if kind is POS:
        return v > 0
    if kind is NONNEG:
        return v >= 0
    if kind is PROB:
        return S.and_(v >= 0, v <= 1)
    if kind is OVER2:
        return v > 2
    if kind is COUNT:
        return S.and_(v >= 1, v == math.floor(v))
    return True


def safe(S, kind, v):
    """well inside (replays only)"""
    if kind in (POS, NONNEG):
        S.tame(S.and_(v > 0.05, v < 9))
    elif kind is OVER2:
        S.tame(S.and_(v > 2.05, v < 9))
    elif kind is ANY:
        S.tame(S.and_(v > -9, v < 9))


def splits(ps):
    """(positional, named) parameters for every way of calling"""
    n = len(ps)
    for k in range(n + 1):
        for named in itertools.combinations(range(n), k):
            rest = [i for i in range(n) if i not in named]
            for j in range(len(rest) + 1):
                yield rest[:j], list(named)[::-1]
                if j == len(rest) and len(named) > 1:
                    yield rest[:j], list(named)


def call(fam, split, first):
    """the text of a call and, for each parameter given, its form and the name of its variable"""
    pos, named = split
    ps = FAMS[fam]
    how, texts = {}, []
    for i in list(pos) + list(named):
        if ps[i][2] is COUNT:
            text, f = (('%s', FORMS[0][1]), ('%s + 1', FORMS[1][1]))[(first + i) % 2]
        elif ps[i][2] is PROB:
            text, f = (('%s', FORMS[0][1]), ('%s/2', lambda v: v / 2))[(first + i) % 2]
        else:
            text, f = FORMS[(first + 2 * i) % len(FORMS)]
        name = NAMES[(i + first) % len(NAMES)]
        t = text.replace('%s', name)
        texts.append(t if i in pos else ('%s=%s' if first % 2 else '%s = %s') % (ps[i][0], t))
        how[i] = (f, name)
    return '%s(%s)' % (fam, (', ' if first % 2 else ',').join(texts)), how


def args_of(S, fam, how, loc):
    want = {}
    for i, (p, default, kind) in enumerate(FAMS[fam]):
        if i in how:
            f, name = how[i]
            want[p] = f(loc[name])
        elif default is not None:
            want[p] = default
    return want


def same_args(S, got, want, fam):
    return S.and_(S.same(set(got), {p for p, _, _ in FAMS[fam]}), *[S.close(got[p], v) for p, v in want.items()])


def values(S, fam, how, tag):
    """values of the variables for which every parameter is valid"""
    loc = {}
    for i, (f, name) in how.items():
        kind = FAMS[fam][i][2]
        loc[name] = S.int(name + tag, -5, 100000) if kind is COUNT else S.real(name + tag)
        v = f(loc[name])
        S.assume(inside(S, kind, v))
        safe(S, kind, v)
        if kind is COUNT:
            S.tame(loc[name] < 50)
    return loc


def crowd(S, loc, fam):
    """unrelated variables named as distributions and functions are there as well"""
    full = {}
    for n in ('zz', 'exp', 'gamma', fam):
        if n not in loc:
            full[n] = S.real('other_' + n)
    full.update(loc)
    return full


def shape_ok(S, fam, text):
    """every parameter is named once"""
    c = ast.parse(text.strip(), mode='eval').body
    S.prove(isinstance(c, ast.Call) and c.func.id == fam, 'a completed definition is of the same type')
    S.prove(len(c.args) == 0, 'completed definitions only name their parameters')
    S.prove(sorted(k.arg for k in c.keywords) == sorted(p for p, _, _ in FAMS[fam]), 'completed definitions name every parameter once')


def bind(S, fam, split, first):
    text, how = call(fam, split, first)
    loc = values(S, fam, how, '')
    if fam == 'triangle':
        w = args_of(S, fam, how, loc)
        S.assume(S.and_(w['a'] < w['m'], w['m'] < w['b']))
    if fam == 'unif':
        w = args_of(S, fam, how, loc)
        S.assume(w['min'] < w['max'])
    S.reach('given')
    want = args_of(S, fam, how, loc)
    names = {n for _, n in how.values()}
    full = crowd(S, loc, fam)
    kept = dict(full)
    d = parse_distribution(text, full)
    S.prove(same_args(S, d.json['Args'], want, fam), 'the arguments bind like a call')
    all_ = dict(d.json['Args'])
    if fam == 'invgamma' and 0 not in how:
        S.prove(all_['a'] > 2, 'the default is valid')
    direct = DistributionCentre.Creators[fam](**all_).create()
    S.prove(S.and_(S.close(d.mean(), direct.mean()), S.close(d.std(), direct.std())), 'the distribution is that of the arguments')
    S.prove(S.and_(S.close(d.Interval[0], direct.Interval[0]), S.close(d.Interval[1], direct.Interval[1])), 'the support is that of the arguments')
    S.prove(S.same(full, kept), 'the given values are not changed')
    # completing
    c = complete_function(text)
    shape_ok(S, fam, c)
    e = parse_distribution(c, full)
    S.prove(S.and_(*[S.close(e.json['Args'][p], all_[p]) for p in all_]), 'completing does not change the arguments')
    S.prove(S.and_(S.close(d.mean(), e.mean()), S.close(d.std(), e.std())), 'completing does not change the distribution')
    g = parse_distribution(c, full, to_complete=False)
    S.prove(S.and_(*[S.close(g.json['Args'][p], all_[p]) for p in all_]), 'completed definitions need no completion')
    cc = complete_function(c)
    shape_ok(S, fam, cc)
    # nodes
    for node in (DistributionLoci('y', text), parse_loci('y ~ ' + text + ' # note')[0], loci_from_json(DistributionLoci('y', text).to_json())):
        S.prove(S.same(set(node.Parents), names), 'a node declares the variables its arguments mention')
        h = node.get_distribution(full)
        S.prove(S.and_(*[S.close(h.json['Args'][p], all_[p]) for p in all_]), 'a node has the distribution of its text')
        shape_ok(S, fam, node.Definition)
    # other values afterwards
    loc2 = values(S, fam, how, '_2')
    w2 = args_of(S, fam, how, loc2)
    if fam == 'triangle':
        S.assume(S.and_(w2['a'] < w2['m'], w2['m'] < w2['b']))
    if fam == 'unif':
        S.assume(w2['min'] < w2['max'])
    S.prove(same_args(S, node.get_distribution(loc2).json['Args'], w2, fam), 'a node follows the values given')
    S.reach('bound')


def bare(S, fam, split):
    """arguments named as the distribution itself"""
    ps = FAMS[fam]
    v = S.real('v')
    i = split
    if ps[i][2] is COUNT:
        v = S.int('n', -5, 1000)
    S.assume(inside(S, ps[i][2], v))
    safe(S, ps[i][2], v)
    text = '%s(%s=%s)' % (fam, ps[i][0], fam)
    if fam not in ('triangle', 'unif'):
        S.prove(S.close(parse_distribution(text, {fam: v}).json['Args'][ps[i][0]], v), 'a variable may have the name of the distribution')
        S.prove(S.same(set(DistributionLoci('y', text).Parents), {fam}), 'it is declared')
    S.reach('named')


def valid(S, fam, i, how):
    """values outside the range are rejected, others accepted"""
    p, _, kind = FAMS[fam][i]
    v = S.real('v')
    S.tame(S.and_(v > -9, v < 9))
    if kind is COUNT:
        S.assume(S.and_(v > -9, v < 30))
    rest = ['%s=%s' % (q, {ANY: '1', PROB: '0.5', COUNT: '3', OVER2: '3'}.get(k, '1.5')) for j, (q, _, k) in enumerate(FAMS[fam]) if j != i]
    if how == 'named':
        text = '%s(%s)' % (fam, ', '.join(['%s=v' % p] + rest))
    elif how == 'positional':
        text = '%s(%s)' % (fam, ', '.join(['v'] + rest))
    else:
        text = '%s(%s)' % (fam, ', '.join(rest + ['%s=v*1' % p]))
    if fam in ('unif', 'triangle'):
        S.assume(S.and_(v > 1.5, v < 9) if p == 'max' else S.and_(v > -9, v < 0.5))
    ok = inside(S, kind, v)
    node = DistributionLoci('y', text)
    try:
        d = parse_distribution(text, {'v': v})
        S.prove(ok, 'values outside the range are rejected')
        S.prove(S.close(d.json['Args'][p], v), 'the value accepted is the value given')
        S.reach('accepted')
    except ValidationError:
        S.prove(S.not_(ok), 'values inside the range are accepted')
        S.reach('rejected')
    bad = node.evaluate({'v': v, 'y': 1.0}) if S.concrete(1 if ok else 0) == 0 else None
    if bad is not None:
        S.prove(S.close(bad, -math.inf), 'a node with rejected values is impossible')


def category(S, text, names):
    loc = {n: S.real(n) for n in names}
    for v in loc.values():
        S.assume(v > 0)
        S.tame(S.and_(v > 0.05, v < 9))
    want = {'a': loc['x'] * 2, 'b': 1.5, 'c': loc['y'] if 'y' in loc else 3}
    for t in (text, complete_function(text)):
        d = parse_distribution(t, crowd(S, loc, 'cat'))
        kv = d.json['Args']['kv']
        S.prove(S.and_(S.same(set(kv), set(want)), *[S.close(kv[k], w) for k, w in want.items()]), 'categories have their weights')
        node = DistributionLoci('z', t)
        S.prove(S.same(set(node.Parents), set(names)), 'a node declares the variables its weights mention')
        S.prove(S.close(node.get_distribution(loc).json['Args']['kv']['a'], want['a']), 'a node has the weights of its text')
    S.reach('categories')


def missing(S, fam, split, first):
    """a variable that has no value is an error"""
    text, how = call(fam, split, first)
    loc = values(S, fam, how, '')
    node = DistributionLoci('y', text)
    for n in sorted({n for _, n in how.values()}):
        part = {k: v for k, v in loc.items() if k != n}
        try:
            node.get_distribution(part)
            S.prove(False, 'a missing variable is an error')
        except (NameError, KeyError):
            S.reach('missing')


def units(tier):
    us = []
    for fam, ps in FAMS.items():
        for sp in splits(ps):
            todo = range(1) if tier == 'quick' else range(6)
            for k in todo:
                first = (len(us) if tier == 'quick' else k)
                us.append(Unit(call(fam, sp, first)[0], bind, (fam, sp, first), ['given', 'bound'], 'any values in range'))
        us.append(Unit('%s of a missing variable' % fam, missing, (fam, (list(range(len(ps))), []), 1), ['missing'], 'any values'))
        for i, (p, _, kind) in enumerate(ps):
            us.append(Unit('%s of %s' % (fam, fam), bare, (fam, i), ['named'], 'any value in range'))
            for how in ('named', 'positional', 'last'):
                us.append(Unit('%s is %s in %s, %s' % (p, kind, fam, how), valid, (fam, i, how), ['accepted'] + (['rejected'] if kind is not ANY else []), 'any value'))
    us.append(Unit('categories', category, ('cat({"a": x*2, "b": 1.5, "c": y})', ('x', 'y')), ['categories'], 'any positive weights'))
    us.append(Unit('named categories', category, ('cat(kv={"c": 3, "b": 1.5, "a": 2*x})', ('x',)), ['categories'], 'any positive weights'))
    return us
