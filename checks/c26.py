"""C26: probability tables normalise, marginalise, condition and look up correctly."""
from itertools import product
import numpy as np
import pandas as pd
from sims_pars.data.static import TransitionMatrix, ConditionalProbabilityTable
from sims_pars.data.timeseries import TimeSeries, TimeSeriesVector, TimeSeriesProbabilityTable, LeeCarter
from .common import Unit

BOUNDS = 'tables of up to n states, of two values of each of up to k indices (any rows, any probabilities), of up to m times'
OUTSIDE = 'combinations listed twice; index values that are not strings or contain colons; times out of order; totals of zero'
ASSUMPTIONS = ['arithmetic over the reals; exp is the mathematical function', 'halfway between two times, either is the nearest']


def shares(S, k0, got, cases, what):
    """a draw made since k0 came from the stated shares: [(condition, value, share)]"""
    ds = [d for d in S.draws(k0) if d['kind'] == 'choice']
    S.prove(len(ds) == 1, 'one draw for each value (%s)' % what)
    for d in ds:
        for i, p in enumerate(d['p']):
            for c, v, share in cases:
                S.prove(S.implies(S.and_(c, d['index'][0] == i, S.same(got, v)), S.close(p, share)), 'drawn with the stated probabilities (%s)' % what)
    S.prove(S.or_(*[S.and_(c, S.same(got, v)) for c, v, share in cases]), 'one of the possible values (%s)' % what)


HOWS = ('call', 'sample', 'many', 'each', 'next', 'distribution')


def transitions(S, n, hows=HOWS, only=None):
    names = list('CABDE'[:n])
    rows = {a: {b: S.real('p_%s%s' % (a, b), lo=0) for b in names} for a in names}
    for a in names:
        S.assume(S.less(0, sum(rows[a].values())))
        S.tame(S.and_(*[S.or_(x == 0, S.and_(x >= 0.1, x <= 5)) for x in rows[a].values()]))
    df = pd.DataFrame([[rows[a][b] for b in names] for a in names], index=names, columns=names)
    tm = TransitionMatrix(df)
    S.reach('made')
    S.prove(S.same(list(tm.StateFrom), names), 'the states')
    for how, a in [(h, a) for h in hows for a in (names if h != 'each' else names[:1]) if only in (None, a)]:
        k0 = S.mark_draws()
        if how == 'call':
            got = [tm(a)]
        elif how == 'next':
            got = [tm.sample_next(a)]
        elif how == 'sample':
            got = [tm.sample(current=a)]
        elif how == 'distribution':
            d = tm[a]
            for b in names:
                S.prove(S.implies(S.less(0, rows[a][b]), S.close(np.exp(d.logpdf(b)) * sum(rows[a].values()), rows[a][b])), 'the probability of a move')
            got = [d()]
        elif how == 'many':
            got = list(tm.sample(2, current=a))
        else:
            got = list(tm.sample(2, currents=[names[-1], names[0]]))
        S.prove(len(got) == (2 if how in ('many', 'each') else 1), 'as many states as requested')
        ds = [d for d in S.draws(k0) if d['kind'] == 'choice']
        S.prove(len(ds) == len(got), 'one draw for each state')
        for j, v in enumerate(got):
            row = rows[a if how != 'each' else [names[-1], names[0]][j]]
            tot = sum(row.values())
            for i, p in enumerate(ds[j]['p']):
                for b in names:
                    S.prove(S.implies(S.and_(ds[j]['index'][0] == i, v == b), S.close(p * tot, row[b])), 'moves by the normalised row of the state')
            S.prove(S.or_(*[S.and_(v == b, S.less(0, row[b])) for b in names]), 'moves to a possible state')
    S.prove(rejected(tm, 'nowhere'), 'an unknown state is rejected')
    S.prove(rejected(tm.__getitem__, 'nowhere'), 'the distribution of an unknown state is rejected')


def rejected(f, x):
    try:
        f(x)
    except KeyError:
        return True
    return False


OPTIONAL = {2: (1, 2, 3), 3: (1, 4, 6)}


def table(S, k):
    """a table over k indices of two values each, with any rows"""
    ixs = ['X', 'Y', 'Z'][:k]
    combos = [dict(zip(ixs, v)) for v in product(*[['%s%d' % (x.lower(), i) for i in range(2)] for x in ixs])]
    combos = combos[::-1][1:] + combos[-1:]     # out of order
    cases, recs = [], []
    for i, c in enumerate(combos):
        there = S.concrete(S.int('has_%d' % i, 0, 1)) == 1 if i in OPTIONAL[k] else True
        p = S.real('p_%d' % i, lo=0)
        S.tame(S.or_(p == 0, S.and_(p >= 0.1, p <= 5)))
        if there:
            recs.append({**c, 'P': p})
        cases.append((there, c, p))
    return ixs, cases, pd.DataFrame(recs), recs


def total(S, cases):
    t = 0
    for c, _, p in cases:
        t = t + (p if c else 0)
    return t


def judge(S, t, cases, what):
    tot = total(S, cases)
    k0 = S.mark_draws()
    got = t()
    shares(S, k0, got, [(S.and_(c, S.less(0, p)), v, p / tot) for c, v, p in cases], what)


def drop(S, cases, index):
    """sum out an index"""
    out = []
    for c, v, p in cases:
        w = {k: x for k, x in v.items() if k != index}
        if not any(w == u for _, u, _ in out):
            same = [(c2, p2) for c2, v2, p2 in cases if {k: x for k, x in v2.items() if k != index} == w]
            out.append((S.or_(*[c2 for c2, _ in same]), w, sum([p2 if c2 else 0 for c2, p2 in same])))
    return out


def keep(cases, **kw):
    return [(c, {k: x for k, x in v.items() if k not in kw}, p) for c, v, p in cases if all(v[k] == x for k, x in kw.items())]


def unchanged(S, df, recs, ixs):
    S.prove(len(df) == len(recs), 'the source keeps its rows')
    S.prove(S.same([r['P'] for _, r in df.iterrows()], [r['P'] for r in recs]), 'the source keeps its probabilities')
    S.prove(S.same(list(df.columns), ixs + ['P']), 'the source keeps its columns')


def conditional(S, k, how):
    ixs, cases, df, recs = table(S, k)
    S.assume(S.less(0, total(S, cases)))
    t = ConditionalProbabilityTable(df, ixs, 'P')
    S.reach('made')
    judge(S, t, cases, 'table')
    if how == 'plain':
        vs = t.sample(2)
        S.prove(len(vs) == 2, 'as many values as requested')
        unchanged(S, df, recs, ixs)
        return
    if how.startswith('marginalise'):
        ix = how[-1]
        rest = drop(S, cases, ix)
        u = t.marginalise(ix)
        S.prove(S.same(list(u.Indices), [x for x in ixs if x != ix]), 'the remaining indices')
    elif how == 'both':
        mid = keep(cases, Y='y1')
        S.assume(S.less(0, total(S, mid)))
        rest = drop(S, mid, 'X')
        u = t.condition(Y='y1').marginalise('X')
    elif how == 'both, reversed':
        rest = keep(drop(S, cases, 'X'), Y='y1')
        S.assume(S.less(0, total(S, rest)))
        u = t.marginalise('X').condition(Y='y1')
    else:
        kw = {x: '%s%s' % (x.lower(), how[-1]) for x in how.split()[1][:-1]}
        rest = keep(cases, **kw)
        S.assume(S.less(0, total(S, rest)))
        u = t.condition(**kw)
        S.prove(S.same(list(u.Indices), [x for x in ixs if x not in kw]), 'the remaining indices')
    S.reach('derived')
    judge(S, u, rest, how)
    unchanged(S, df, recs, ixs)
    judge(S, t, cases, 'the table afterwards')
    judge(S, t.marginalise(ixs[0]), drop(S, cases, ixs[0]), 'the table used again')


def times(S, m):
    ts = [S.real('t0')]
    for i in range(1, m):
        ts.append(ts[-1] + S.real('dt%d' % i, gt=0))
    S.tame(S.and_(ts[0] >= -50, ts[-1] <= 50, *[ts[i] - ts[i - 1] >= 0.125 for i in range(1, m)]))
    return ts


def nearest(S, ts, i, t):
    """entry i is a nearest one"""
    return S.and_(*[S.leq(abs(t - ts[i]), abs(t - s)) for s in ts])


def series(S, m, kind):
    ts = times(S, m)
    xs, ys = [S.real('x%d' % i) for i in range(m)], [S.real('y%d' % i) for i in range(m)]
    t = S.real('t')
    S.tame(S.and_(t >= -60, t <= 60))
    df = pd.DataFrame([{'Time': a, 'X': b, 'Y': c} for a, b, c in zip(ts, xs, ys)])
    if kind == 'one':
        got = TimeSeries(df, 'Time', 'X')(t)
        S.reach('made')
        S.prove(S.or_(*[S.and_(nearest(S, ts, i, t), S.close(got + 0, xs[i])) for i in range(m)]), 'the nearest entry')
    else:
        got = TimeSeriesVector(df, 'Time', ['Y', 'X'])(t)
        S.reach('made')
        S.prove(S.same(sorted(got.keys()), ['X', 'Y']), 'every variable')
        S.prove(S.or_(*[S.and_(nearest(S, ts, i, t), S.close(got['X'] + 0, xs[i]), S.close(got['Y'] + 0, ys[i])) for i in range(m)]), 'the nearest entries')


def dated(S, ts, n):
    """a probability table at given times"""
    names = list('BAC'[:n])
    rows = [{b: S.real('p_%d%s' % (i, b), lo=0) for b in names} for i in range(len(ts))]
    for r in rows:
        S.assume(S.less(0, sum(r.values())))
        S.tame(S.and_(*[S.or_(x == 0, S.and_(x >= 0.1, x <= 5)) for x in r.values()]))
    t = S.real('t')
    S.tame(S.and_(t >= -60, t <= 60))
    df = pd.DataFrame([{'Time': a, **r} for a, r in zip(ts, rows)])
    pt = TimeSeriesProbabilityTable(df, 'Time', names)
    k0 = S.mark_draws()
    v = pt(t)
    S.reach('made')
    ds = [d for d in S.draws(k0) if d['kind'] == 'choice']
    S.prove(len(ds) == 1, 'one draw for each value')
    S.prove(S.or_(*[S.and_(nearest(S, ts, i, t), v == b, S.less(0, rows[i][b])) for i in range(len(ts)) for b in names]), 'a possible value at the nearest time')
    for j, p in enumerate(ds[0]['p']):
        for b in names:
            S.prove(S.implies(S.and_(ds[0]['index'][0] == j, v == b),
                              S.or_(*[S.and_(nearest(S, ts, i, t), S.close(p * sum(rows[i].values()), rows[i][b])) for i in range(len(ts))])), 'drawn with the probabilities of the nearest time')


def lee_carter(S, m, ages, named):
    ts = times(S, m)
    ks = [S.real('k%d' % i) for i in range(m)]
    al, be = [S.real('a%d' % i) for i in range(ages)], [S.real('b%d' % i) for i in range(ages)]
    t = S.real('t')
    S.tame(S.and_(t >= -60, t <= 60))
    labels = ['age%d' % (ages - i) for i in range(ages)]
    cols = dict(i_time='T', i_age='G', i_al='A', i_be='B', i_ka='K') if named else {}
    ct, cg, ca, cb, ck = ('T', 'G', 'A', 'B', 'K') if named else ('Time', 'Age', 'Alpha', 'Beta', 'Kappa')
    mt = pd.DataFrame([{ct: a, ck: k} for a, k in zip(ts, ks)])
    ma = pd.DataFrame([{cg: g, ca: a, cb: b} for g, a, b in zip(labels, al, be)])
    lc = LeeCarter(mt, ma, **cols)
    S.reach('made')
    for e in [*al, *[k * b for k in ks for b in be]]:
        S.tame(S.and_(e >= -3, e <= 3))
    got = lc(t)
    S.prove(S.same(sorted(got.keys()), sorted(labels)), 'every age')
    for g, a, b in zip(labels, al, be):
        S.prove(S.or_(*[S.and_(nearest(S, ts, i, t), S.close(got[g], np.exp(a + ks[i] * b))) for i in range(m)]), 'the rate of an age')
        S.prove(S.close(lc.get_rate(t, g), got[g]), 'the rate of an age on its own')


def units(tier):
    us = []
    q = tier == 'quick'
    for n in (2, 3) if q else (2, 3, 4):
        for hows in ((h,) for h in HOWS) if n > 2 else (HOWS,):
            for only in 'CABDE'[:n] if hows == ('distribution',) else (None,):
                us.append(Unit('transitions, %d states%s%s' % (n, ', by ' + hows[0] if n > 2 else '', ' of ' + only if only else ''), transitions,
                               (n, hows, only), ['made'], 'any non-negative rows'))
    hows = ['plain', 'marginalise X', 'marginalise Y', 'condition X0', 'condition X1', 'condition Y0', 'condition Y1']
    for h in hows:
        us.append(Unit('conditional table, 2 indices, %s' % h, conditional, (2, h), ['made'] + (['derived'] if h != 'plain' else []), 'any rows of two values each'))
    for h in ['plain', 'marginalise X', 'marginalise Z', 'condition X1', 'condition Z0', 'condition XZ1', 'condition XY0', 'both', 'both, reversed'] + ([] if q else ['marginalise Y', 'condition Y0', 'condition YZ0']):
        us.append(Unit('conditional table, 3 indices, %s' % h, conditional, (3, h), ['made'] + (['derived'] if h != 'plain' else []), 'two values each, three of the eight rows optional'))
    for m in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        if m > 1:
            us.append(Unit('series of %d times' % m, series, (m, 'one'), ['made'], 'any increasing times, any values'))
            us.append(Unit('series of vectors, %d times' % m, series, (m, 'vector'), ['made'], 'any increasing times, any values'))
    for ts in ([2000, 2010], [0, 1, 2.5], [-1.5, 0, 3, 4]):
        us.append(Unit('dated tables at %s' % ts, dated, (ts, 2), ['made'], 'any rows'))
    us.append(Unit('dated tables of 3 values', dated, ([1990, 2000, 2005], 3), ['made'], 'any rows'))
    for m, a, named in ((2, 2, False), (3, 2, True), (3, 3, False)):
        us.append(Unit('Lee-Carter, %d times, %d ages%s' % (m, a, ', own names' if named else ''), lee_carter, (m, a, named), ['made'], 'any parameters'))
    return us
