"""C23: weighted resampling draws only finite-weight items by their weights."""
import math
import numpy as np
from sims_pars.util import resample
from .common import Unit

BOUNDS = 'up to four items (three in the quick tier), each weight any real number, nan or infinite; every requested number up to five'
OUTSIDE = 'the drawing from the stated probabilities itself (numpy.random.choice); non-log weights that sum to zero; rounding'
ASSUMPTIONS = ['numpy.random.choice returns positions of positive probability; exp and log are inverse, increasing and turn sums into products']


def weights(S, n, log):
    ws, fin = [], []
    for i in range(n):
        k = S.choice('w%d_kind' % i, ['finite', 'nan', 'inf', '-inf'])
        v = S.real('w%d' % i) if log else S.real('w%d' % i)
        if not log:
            S.assume(S.leq(0, v))
        S.tame(S.and_(v >= -20, v <= 20))
        if k == 'nan':
            v = math.nan
        elif k == 'inf':
            v = math.inf
        elif k == '-inf':
            v = -math.inf
        ws.append(v)
        fin.append(k == 'finite')
    return ws, fin


def law(S, n, m, log, with_pars, form):
    """m: the number asked for (None: not stated)"""
    ws, fin = weights(S, n, log)
    some = S.or_(*fin)
    raw = [(np.exp(w) if log else w) if f else 0 for w, f in zip(ws, fin)]
    tot = sum(raw)
    if not log:
        S.assume(S.or_(S.not_(some), S.less(0, tot)))
        S.tame(S.or_(S.not_(some), tot >= 0.01))
    hs = ['h%d' % i for i in range(n)]
    pars = ['p%d' % i for i in range(n)]
    k0 = S.mark_draws()
    given = np.array(ws) if form == 'array' else list(ws)
    kw = {}
    if m is not None:
        kw['new_size'] = m
    if log is False:
        kw['log'] = False
    if with_pars:
        got = resample(given, hs, pars, **kw)
    else:
        got = resample(given, hs, **kw)
    S.prove(S.same(list(hs), ['h%d' % i for i in range(n)]), 'the items given are left as they are')
    S.prove(S.and_(*[S.close(a, b) for a, b in zip(given, ws)]), 'the weights given are left as they are')
    val = got[-1]
    if S.not_(some):
        S.reach('none finite')
        S.prove(S.close(val, -math.inf), 'with no finite weight the value is minus infinity')
    else:
        S.reach('drawn')
        size = m if m else n
        items = got[0]
        S.prove(len(items) == size, 'the requested number of items')
        ds = [d for d in S.draws(k0) if d['kind'] == 'choice']
        S.prove(len(ds) == 1, 'one weighted draw')
        d = ds[0]
        S.prove(d['p'] is not None, 'the draw is weighted')
        S.prove(S.or_(d['replace'], size == 1), 'the draws are independent')
        for j in range(size):
            for i in range(n):
                hit = items[j] == hs[i]
                if hit:
                    S.prove(fin[i], 'only items of finite weight')
                    S.prove(S.close(d['p'][d['index'][j]] * tot, raw[i]), 'selected in proportion to its weight')
            S.prove(S.or_(*[items[j] == h for h in hs]), 'only items given')
            if with_pars:
                S.prove(S.and_(*[S.implies(items[j] == hs[i], got[1][j] == pars[i]) for i in range(n)]), 'each item keeps its own parameters')
            for l in range(j):
                S.prove(S.iff(items[j] == items[l], d['index'][j] == d['index'][l]), 'different draws select different items')
        if with_pars:
            S.prove(len(got[1]) == size, 'as many parameters as items')
        if S.and_(*fin):
            S.reach('all finite')
            if m is None or m == 0 or m == n:
                S.prove(S.close(np.exp(val + np.log(n)), tot), 'the value is the log of the mean weight')


def units(tier):
    us = []
    q = tier == 'quick'
    for log in (True, False):
        for with_pars in (False, True):
            for n, ms in ((1, (None, 2)), (2, (None, 1, 3)), (3, (None, 0, 2))) if q else ((1, (None, 0, 3)), (2, (None, 1, 2, 4)), (3, (None, 0, 1, 3, 5)), (4, (None, 1, 3))):
                for m in ms:
                    form = 'array' if (n == 2 or m == 0) else 'list'
                    us.append(Unit('%d %s%s, %s' % (n, 'log weights' if log else 'weights', ' with parameters' if with_pars else '', 'default size' if m is None else m),
                                   law, (n, m, log, with_pars, form), ['drawn', 'none finite', 'all finite'], 'every weight'))
    return us
