"""C11: distributions have the stated moments, support and densities."""
import itertools
import math
import numpy as np
from sims_pars.prob import parse_distribution, CategoricalRV
from .common import Unit

BOUNDS = 'every valid value of every parameter; every point; categorical distributions of up to four categories; up to five draws'
OUTSIDE = 'that scipy draws by the law of the family it is asked for; moments and densities of the log-normal and inverse-gamma distributions, whose parametrisation is not documented; rounding; triangles whose corners coincide'
ASSUMPTIONS = ['scipy.stats families have the textbook moments, support and densities of the parameters passed to them (compared with scipy itself on every replay)',
               'a draw is any number inside the support']

INF = math.inf


def lgam(S, x):
    return math.lgamma(x)


def xlogy(S, x, y):
    """x log y, 0 where x is 0; only for y > 0"""
    return x * np.log(y)


def exp(S, p, kind):
    r = p('rate', gt=0)
    return dict(text='exp(rate)', mean=1 / r, var=1 / (r * r), lo=0, hi=INF, at=lambda x: np.log(r) - r * x)


def gamma(S, p, kind):
    a, b = p('shape', gt=0), p('rate', gt=0)
    return dict(text='gamma(shape, rate)', mean=a / b, var=a / (b * b), lo=0, hi=INF,
                at=lambda x: a * np.log(b) + (a - 1) * np.log(x) - b * x - math.lgamma(a))


def chisq(S, p, kind):
    k = p('df', gt=0)
    return dict(text='chisq(df)', mean=k, var=2 * k, lo=0, hi=INF,
                at=lambda x: (k / 2 - 1) * np.log(x / 2) - x / 2 - math.lgamma(k / 2) - np.log(2))


def unif(S, p, kind):
    a, b = p('min'), p('max')
    S.assume(S.less(a, b))
    S.tame(b - a >= 0.01)
    return dict(text='unif(min, max)', mean=(a + b) / 2, var=(b - a) * (b - a) / 12, lo=a, hi=b, at=lambda x: -np.log(b - a), ends=True)


def norm(S, p, kind):
    m, s = p('mean'), p('sd', gt=0)
    return dict(text='norm(mean, sd)', mean=m, var=s * s, lo=-INF, hi=INF,
                at=lambda x: -(x - m) * (x - m) / (2 * s * s) - np.log(s) - math.log(math.sqrt(2 * math.pi)))


def beta(S, p, kind):
    a, b = p('shape1', gt=0), p('shape2', gt=0)
    t = a + b
    return dict(text='beta(shape1, shape2)', mean=a / t, var=a * b / (t * t * (t + 1)), lo=0, hi=1,
                at=lambda x: (a - 1) * np.log(x) + (b - 1) * np.log(1 - x) - (math.lgamma(a) + math.lgamma(b) - math.lgamma(t)))


def triangle(S, p, order):
    """order: the corners from the lowest to the highest"""
    # the corners are written as the lowest and the two gaps, so that comparing them is simple for the solver
    lo = p('low')
    left, right = p('left', gt=None), p('right', gt=None)
    S.assume(S.and_(S.leq(0, left), S.leq(0, right), S.less(0, left + right)))
    S.tame(left + right >= 0.1)
    S.tame(S.or_(left == 0, left >= 0.01))
    S.tame(S.or_(right == 0, right >= 0.01))
    mid, hi = lo + left, lo + left + right
    at3 = dict(zip(order, (lo, mid, hi)))
    a, m, b = at3['a'], at3['m'], at3['b']
    p.loc.clear()
    p.loc.update(a=a, m=m, b=b)

    def at(x):
        if x < mid:
            return 2 * (x - lo) / ((mid - lo) * (hi - lo))
        return 2 * (hi - x) / ((hi - mid) * (hi - lo))
    return dict(text='triangle(a, m, b)', mean=(a + m + b) / 3, var=(a * a + m * m + b * b - a * m - a * b - m * b) / 18, lo=lo, hi=hi,
                at=at, density=True, inner=lambda x: S.not_(x == mid))


def binom(S, p, kind):
    n, q = p('size', whole=True, gt=0), p('prob')
    S.assume(S.and_(S.leq(0, q), S.leq(q, 1)))
    S.tame(S.or_(q == 0, q == 1, S.and_(q >= 0.01, q <= 0.99)))

    def at(x):
        if q == 0:
            return 0 if x == 0 else -INF
        if q == 1:
            return 0 if x == n else -INF
        return math.lgamma(n + 1) - math.lgamma(x + 1) - math.lgamma(n - x + 1) + x * np.log(q) + (n - x) * np.log(1 - q)
    return dict(text='binom(size, prob)', mean=n * q, var=n * q * (1 - q), lo=0, hi=n, at=at, counts=True)


def pois(S, p, kind):
    m = p('lam', gt=0)
    return dict(text='pois(lam)', mean=m, var=m, lo=0, hi=INF, at=lambda x: x * np.log(m) - m - math.lgamma(x + 1), counts=True)


def lnorm(S, p, kind):
    m, s = p('meanlog', ge=0), p('sdlog', gt=0)
    return dict(text='lnorm(meanlog, sdlog)', lo=0, hi=INF)


def invgamma(S, p, kind):
    a, b = p('a', gt=2), p('rate', gt=0)
    return dict(text='invgamma(a, rate)', lo=0, hi=INF)


FAMILIES = dict(exp=exp, gamma=gamma, chisq=chisq, unif=unif, norm=norm, beta=beta, binom=binom, pois=pois)


def make(S, fam, np_):
    loc = {}

    def p(name, gt=None, whole=False, ge=None):
        if whole:
            v = S.int(name, 1, 100000)
            S.tame(v <= 40)
        else:
            v = S.npreal(name) if np_ else S.real(name)
            if gt is not None:
                S.assume(S.less(gt, v))
            if ge is not None:
                S.assume(S.leq(ge, v))
            S.tame(S.and_(v >= (gt + 0.05 if gt is not None else -20), v <= 20))
        loc[name] = v
        return v
    p.loc = loc
    d = triangle(S, p, fam[9:]) if fam.startswith('triangle') else dict(FAMILIES, lnorm=lnorm, invgamma=invgamma)[fam](S, p, np_)
    d.update(inner=d.get('inner', lambda x: True))
    return d, parse_distribution(d['text'], loc)


def moments(S, fam, np_):
    want, d = make(S, fam, np_)
    S.reach('made')
    S.prove(S.close(d.mean(), want['mean']), 'the mean is that of the family')
    sd = d.std()
    S.prove(S.leq(0, sd), 'the standard deviation is not negative')
    S.prove(S.close(sd * sd, want['var']), 'the standard deviation is that of the family')
    lo, hi = d.Interval
    S.prove(S.and_(S.close(lo, want['lo']), S.close(hi, want['hi'])), 'the interval is the support')
    S.prove(S.and_(S.close(d.Lower, want['lo']), S.close(d.Upper, want['hi'])), 'the ends are those of the support')
    S.prove(d.Type == ('Integer' if want.get('counts') else 'Double'), 'the type is that of the family')


def support(S, fam, np_):
    want, d = make(S, fam, np_)
    S.reach('made')
    lo, hi = d.Interval
    S.prove(S.and_(S.close(lo, want['lo']), S.close(hi, want['hi'])), 'the interval is the support')
    S.prove(S.and_(S.close(d.Lower, want['lo']), S.close(d.Upper, want['hi']), d.Type == 'Double'), 'the ends are those of the support')
    x = S.real('x')
    S.tame(S.and_(x >= -40, x <= 0))
    if x < 0:
        S.prove(S.close(d.logpdf(x), -INF), 'minus infinity outside the support')
        S.reach('outside')


def density(S, fam, np_):
    want, d = make(S, fam, np_)
    S.reach('made')
    lo, hi = want['lo'], want['hi']
    if want.get('counts'):
        x = S.int('x', -10, 200000)
        S.tame(x <= 60)
        inside, outside = S.and_(S.leq(lo, x), S.leq(x, hi)), S.or_(S.less(x, lo), S.less(hi, x))
    else:
        x = S.real('x')
        S.tame(S.and_(x >= -40, x <= 40))
        inside, outside = S.and_(S.less(lo, x), S.less(x, hi), want['inner'](x)), S.or_(S.less(x, lo), S.less(hi, x))
        S.tame(S.or_(outside, S.and_(S.or_(lo == -INF, x >= lo + 0.01), S.or_(hi == INF, x <= hi - 0.01))))
    v = d.logpdf(x)
    if inside:
        S.reach('inside')
        S.prove(S.close(np.exp(v) if want.get('density') else v, want['at'](x)), 'the log density inside the support')
    elif outside:
        S.prove(S.close(v, -INF), 'minus infinity outside the support')
    elif want.get('ends'):
        S.prove(S.close(v, want['at'](x)), 'the log density at the ends')


def draws(S, fam, np_, sizes):
    want, d = make(S, fam, np_)
    for n in sizes:
        k0 = S.mark_draws()
        if n is None:
            v = d.sample()
        elif n == 'call':
            v = d()
        else:
            v = d.sample(n)
        S.reach('drawn')
        ds = [x for x in S.draws(k0) if x['kind'] == 'rvs']
        S.prove(len(ds) == 1, 'each request draws once')
        if n in (None, 'call', 1):
            S.prove(S.number(v), 'one draw is a single value')
            vs = [v]
        else:
            S.prove(len(v) == n, 'as many values as requested')
            vs = list(v)
        for x in vs:
            S.prove(S.and_(S.leq(want['lo'], x), S.leq(x, want['hi'])), 'draws lie in the support')
        got = ds[0]['value']
        got = list(got) if n not in (None, 'call', 1) else [got if S.number(got) else got[0]]
        S.prove(S.and_(*[S.close(a, b) for a, b in zip(vs, got)]), 'the values are those drawn')


def constant(S, text):
    k, x = S.real('k'), S.real('x')
    S.tame(S.and_(k >= -100, k <= 100, x >= -100, x <= 100))
    d = parse_distribution('k(v)' if text == 'position' else 'k(k=v)' if text == 'name' else 'k(v + 0)', {'v': k})
    S.reach('made')
    S.prove(S.and_(S.close(d.mean(), k), d.std() == 0, S.close(d.Lower, k), S.close(d.Upper, k)), 'moments and support of a constant')
    S.prove(S.same(list(d.Interval), [d.Lower, d.Upper]), 'the interval of a constant')
    S.prove(S.close(d.logpdf(x), 0 if x == k else -INF), 'log density of a constant')
    S.prove(S.close(d.logpdf(k), 0), 'log density at the constant')
    S.prove(S.close(d.sample(), k), 'one draw of a constant')
    S.prove(S.close(d.sample(1), k), 'one draw of a constant')
    for n in (2, 3, 5):
        v = d.sample(n)
        S.prove(S.and_(len(v) == n, *[S.close(a, k) for a in v]), 'draws of a constant')


def categories(S, n, text):
    names = ['c%d' % i for i in range(n)]
    ws = {c: S.real('w' + c) for c in names}
    for w in ws.values():
        S.assume(S.leq(0, w))
        S.tame(S.or_(w == 0, S.and_(w >= 0.01, w <= 100)))
    tot = sum(ws.values())
    S.assume(S.less(0, tot))
    if text == 'object':
        d = CategoricalRV(dict(ws))
    elif text == 'mapping':
        d = parse_distribution('cat(kv)', {'kv': dict(ws)})
    else:
        d = parse_distribution('cat({' + ', '.join('"%s": w%s' % (c, c) for c in names) + '})', {'w' + c: w for c, w in ws.items()})
    S.reach('made')
    S.prove(S.and_(d.Type == 'Category', S.same(list(d.cat), names)), 'the categories')
    for c in names:
        v = d.logpdf(c)
        if ws[c] == 0:
            S.prove(S.close(v, -INF), 'a category of no weight has log density minus infinity')
        else:
            S.prove(S.close(v, np.log(ws[c] / tot)), 'log density of a category')
    for m in (1, 3):
        k0 = S.mark_draws()
        v = d.sample(m)
        ds = [x for x in S.draws(k0) if x['kind'] == 'choice']
        S.prove(len(ds) == 1, 'one weighted draw')
        q = ds[0]
        S.prove(S.and_(q['p'] is not None, S.or_(q['replace'], m == 1)), 'the draw is weighted')
        vs = [v] if m == 1 else list(v)
        S.prove(len(vs) == m, 'as many categories as requested')
        for j, x in enumerate(vs):
            S.prove(S.or_(*[x == c for c in names]), 'only categories')
            for c in names:
                if x == c:
                    S.prove(S.close(q['p'][q['index'][j]] * tot, ws[c]), 'drawn in proportion to the weights')
                    S.reach('drawn')
    # counts of categories
    cs = {c: S.int('n' + c, 0, 3) for c in names[:2]}
    for c in cs:
        S.assume(S.less(0, ws[c]))
    S.prove(S.close(d.logpdf(cs), sum([x * np.log(ws[c] / tot) for c, x in cs.items()])), 'log density of counts')


def units(tier):
    us = []
    for fam in list(FAMILIES) + ['triangle ' + ''.join(x) for x in itertools.permutations('amb')]:
        for np_ in (False, True):
            us.append(Unit('%s moments%s' % (fam, ', numpy parameters' if np_ else ''), moments, (fam, np_), ['made'], 'all valid parameters'))
            us.append(Unit('%s density%s' % (fam, ', numpy parameters' if np_ else ''), density, (fam, np_), ['made', 'inside'], 'all valid parameters and points'))
        us.append(Unit('%s draws' % fam, draws, (fam, False, (None, 'call', 1, 2, 3) if tier == 'quick' else (None, 'call', 1, 2, 3, 4, 5)), ['drawn'], 'all valid parameters'))
    for fam in ('lnorm', 'invgamma'):
        us.append(Unit('%s support' % fam, support, (fam, False), ['made', 'outside'], 'all valid parameters'))
        us.append(Unit('%s draws' % fam, draws, (fam, False, (None, 'call', 1, 2, 3)), ['drawn'], 'all valid parameters'))
    for t in ('position', 'name', 'expression'):
        us.append(Unit('constant, by ' + t, constant, (t,), ['made'], 'every value'))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for t in ('object', 'mapping', 'text'):
            us.append(Unit('%d categories, %s' % (n, t), categories, (n, t), ['made', 'drawn'], 'all weights'))
    return us
