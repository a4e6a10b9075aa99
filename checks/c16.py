"""C16: fitting targets measure distance and likelihood consistently."""
import math
import numpy as np
import scipy.stats as sts
from sims_pars.fit.targets import read_targets
from sims_pars.fit.targets.single import DataPointError, DataPointRange, DataDistribution
from sims_pars.fit.targets.base import AbsData
from .common import Unit

BOUNDS = 'every nonzero target value, positive error and range, every pair of simulated values; every specification of up to five targets'
OUTSIDE = 'zero target values; non-positive errors; numpy integers as target values; rounding of floating-point numbers'
ASSUMPTIONS = ['a distribution is any mean, positive standard deviation and log density']


class Dist:
    """a distribution with any log density, and whether it is given as a density or as a mass function"""

    def __init__(self, S, name='d'):
        self.S, self.name = S, name

    def mean(self):
        return self.S.real(self.name + '_mean')

    def std(self):
        return self.S.real(self.name + '_std', gt=0)

    def logpdf(self, v):
        return self.S.fn(self.name + '_log', v)


class Mass:
    def __init__(self, d):
        self.d = d

    def mean(self):
        return self.d.mean()

    def std(self):
        return self.d.std()

    def logpmf(self, v):
        return self.d.S.fn(self.d.name + '_log', v)


def nonzero(S, name, kind):
    v = S.real(name) if kind == 'float' else (S.npreal(name) if kind == 'numpy' else S.int(name, -1000, 1000))
    S.assume(S.or_(S.less(v, 0), S.less(0, v)))
    S.tame(S.and_(v <= 1000, v >= -1000, S.or_(v >= 0.001, v <= -0.001)))
    return v


def distances(S, t, v, np_):
    """t measures the distance of any two simulated values from v"""
    x, y = (S.npreal('x'), S.npreal('y')) if np_ else (S.real('x'), S.real('y'))
    S.tame(S.and_(x <= 1000, x >= -1000, y <= 1000, y >= -1000))
    dx, dy = t.calc_distance({'other': 0, 'T': x}), t.calc_distance({'T': y, 'more': 1})
    ax, ay = abs(x - v), abs(y - v)
    S.tame(S.or_(ax == 0, ax >= 0.001))
    S.tame(S.or_(ax == ay, ax - ay >= 0.001, ay - ax >= 0.001))
    S.prove(S.leq(0, dx), 'the distance is not negative')
    S.prove(S.iff(S.less(0, ax), S.less(0, dx)), 'the distance is zero exactly at the target')
    S.prove(S.implies(S.less(ax, ay), S.less(dx, dy)), 'the distance grows with the deviation')
    S.prove(S.implies(S.close(ax, ay), S.close(dx, dy)), 'the distance depends only on the size of the deviation')
    S.prove(S.close(t.calc_distance({'T': v}), 0), 'the distance is zero at the target')


def with_error(S, kind, np_, default):
    v = nonzero(S, 'v', kind)
    if default:
        t = DataPointError('T', v)
        e = 0.1
    else:
        e = S.real('e', gt=0)
        t = DataPointError('T', v, e)
    S.tame(S.and_(e >= 0.001, e <= 100))
    S.reach('built')
    S.prove(S.and_(t.Name == 'T', S.close(t.Value, v), S.close(t.Error, e)), 'the target keeps what it is given')
    var = t.get_var_obs()
    S.prove(S.and_(S.finite(var), S.positive(var)), 'the observation variance is positive')
    f = S.real('f', gt=0)
    S.assume(S.less(f, e))
    S.tame(S.and_(f >= 0.001, e - f >= 0.001))
    S.prove(S.less(DataPointError('T', v, f).get_var_obs(), var), 'the observation variance shrinks with the error')
    S.prove(S.close(DataPointError('T', 2 * v, e).get_var_obs(), 4 * var), 'the observation variance is in squared units')
    S.prove(S.less(t.calc_distance({'T': v + 1}), DataPointError('T', v, f).calc_distance({'T': v + 1})), 'a precise target weighs deviations more')
    S.prove(S.same(t.ev(), (t.Value, var)), 'expectation and variance together')
    distances(S, t, v, np_)
    refuses_likelihood(S, t, v)


def refuses_likelihood(S, t, v):
    refused = False
    try:
        t.calc_likelihood({'T': v})
    except AttributeError:
        refused = True
    S.prove(refused, 'a point target has no likelihood')


def with_range(S, kind, np_):
    m = nonzero(S, 'm', kind)
    l, u = S.real('l'), S.real('u')
    S.assume(S.and_(S.less(l, m), S.less(m, u)))
    S.tame(S.and_(m - l >= 0.001, u - m >= 0.001, m - l <= 1000, u - m <= 1000))
    t = DataPointRange('T', m, l, u)
    S.reach('built')
    S.prove(S.and_(t.Name == 'T', S.close(t.Value, m), S.close(t.Lower, l), S.close(t.Upper, u)), 'the target keeps what it is given')
    var = t.get_var_obs()
    S.prove(S.and_(S.finite(var), S.positive(var)), 'the observation variance is positive')
    a, b = S.real('a'), S.real('b')
    S.assume(S.and_(S.leq(l, a), S.less(a, m), S.less(m, b), S.leq(b, u), S.less(b - a, u - l)))
    S.tame((u - l) - (b - a) >= 0.001)
    S.prove(S.less(DataPointRange('T', m, a, b).get_var_obs(), var), 'the observation variance shrinks with the range')
    S.prove(S.close(DataPointRange('T', 2 * m, 2 * l, 2 * u).get_var_obs(), 4 * var), 'the observation variance is in squared units')
    S.prove(S.less(t.calc_distance({'T': m + 1}), DataPointRange('T', m, a, b).calc_distance({'T': m + 1})), 'a precise target weighs deviations more')
    S.prove(S.same(t.ev(), (t.Value, var)), 'expectation and variance together')
    distances(S, t, m, np_)
    refuses_likelihood(S, t, m)


def with_distribution(S, mass):
    d = Dist(S)
    t = DataDistribution('T', Mass(d) if mass else d)
    S.reach('built')
    x = S.real('x')
    S.prove(S.and_(t.Name == 'T', S.close(t.Value, d.mean())), 'its value is the mean')
    S.prove(S.close(t.get_var_obs(), d.std() * d.std()), 'its variance is that of the distribution')
    S.prove(S.close(t.calc_likelihood({'T': x, 'o': 0}), d.logpdf(x)), 'the likelihood is the log density')
    S.prove(S.close(t.calc_distance({'o': 0, 'T': x}), -d.logpdf(x)), 'the distance is minus the log density')


SPECS = ['number', 'numpy number', 'whole', 'only m', 'm and error', 'range', 'm with l', 'm with u', 'text', 'target', 'no m', 'list', 'nothing',
         'range and error']


def reading(S, n, kinds, default):
    """every list of n targets of these kinds"""
    src, what, val = {}, {}, {}
    bad = False
    for i in range(n):
        k = 'T%d' % i
        w = S.choice('kind%d' % i, kinds)
        v = S.real('v%d' % i)
        l, u, e = S.real('l%d' % i), S.real('u%d' % i), S.real('e%d' % i, gt=0)
        d = Dist(S, 'd%d' % i)
        if w == 'number':
            src[k] = v
        elif w == 'numpy number':
            src[k] = S.npreal('v%d' % i)
        elif w == 'whole':
            src[k] = S.int('w%d' % i, -100, 100)
        elif w == 'only m':
            src[k] = {'m': v}
        elif w == 'm and error':
            src[k] = {'m': v, 'error': e}
        elif w == 'range':
            src[k] = {'m': v, 'l': l, 'u': u}
        elif w == 'range and error':
            src[k] = {'error': e, 'u': u, 'l': l, 'm': v}
        elif w == 'm with l':
            src[k] = {'m': v, 'l': l}
        elif w == 'm with u':
            src[k] = {'u': u, 'm': v, 'error': e}
        elif w == 'text':
            src[k] = 'norm(3, 2)'
        elif w == 'target':
            src[k] = DataDistribution('own', d)
        elif w == 'no m':
            src[k] = {'error': e}
        elif w == 'list':
            src[k] = [v]
        else:
            src[k] = None
        what[k] = w
        val[k] = (v, l, u, e, d)
    wrong = S.or_(*[S.or_(w == 'no m', w == 'list', w == 'nothing') for w in what.values()])
    outside = S.or_(*[S.and_(S.or_(what[k] == 'range', what[k] == 'range and error'),
                             S.not_(S.and_(val[k][1] < val[k][0], val[k][0] < val[k][2]))) for k in src])
    g = S.real('g', gt=0)
    failed = ''
    r = {}
    try:
        if default:
            r = read_targets(src)
            g = 0.1
        else:
            r = read_targets(src, error=g)
    except (ValueError, AssertionError):
        failed = 'rejected'
    S.prove(S.iff(failed == 'rejected', S.or_(wrong, outside)), 'unknown formats and ranges which do not bracket the value are rejected')
    if failed == 'rejected':
        S.reach('rejected')
    else:
        S.reach('read')
        S.prove(S.same(list(r), list(src)), 'one target for each name')
        for i in range(n):
            k = 'T%d' % i
            t, w = r[k], what[k]
            v, l, u, e, d = val[k]
            if w == 'target':
                S.prove(t is src[k], 'a prepared target is used as it is')
            else:
                S.prove(t.Name == k, 'each target knows its name')
            if S.or_(w == 'number', w == 'numpy number', w == 'only m', w == 'm with l'):
                S.prove(S.and_(isinstance(t, DataPointError), S.close(t.Value, v), S.close(t.Error, g)), 'numbers have the common error')
            if w == 'whole':
                S.prove(S.and_(isinstance(t, DataPointError), S.close(t.Value, S.int('w%d' % i, -100, 100)), S.close(t.Error, g)), 'whole numbers have the common error')
            if S.or_(w == 'm and error', w == 'm with u'):
                S.prove(S.and_(isinstance(t, DataPointError), S.close(t.Value, v), S.close(t.Error, e)), 'a stated error is used')
            if S.or_(w == 'range', w == 'range and error'):
                S.prove(S.and_(isinstance(t, DataPointRange), S.close(t.Value, v), S.close(t.Lower, l), S.close(t.Upper, u)), 'a range is used')
            if w == 'text':
                S.prove(S.and_(isinstance(t, DataDistribution), S.close(t.Value, 3), S.close(t.get_var_obs(), 4),
                               S.close(t.calc_distance({k: 5}), 0.5 + math.log(2 * math.sqrt(2 * math.pi)))), 'a text gives the distribution')


def units(tier):
    us = []
    for kind in ('float', 'int', 'numpy'):
        for np_ in (False, True):
            for default in (False, True):
                if default and kind != 'float':
                    continue
                us.append(Unit('error, %s value%s%s' % (kind, ', numpy outputs' if np_ else '', ', default error' if default else ''), with_error,
                               (kind, np_, default), ['built'], 'all values, errors and outputs'))
            us.append(Unit('range, %s value%s' % (kind, ', numpy outputs' if np_ else ''), with_range, (kind, np_), ['built'], 'all values, ranges and outputs'))
    for mass in (False, True):
        us.append(Unit('distribution' + (' of counts' if mass else ''), with_distribution, (mass,), ['built'], 'any log density'))
    for default in (False, True):
        n = 2 if tier == 'quick' else 3
        us.append(Unit('reading %d targets%s' % (n, ', default error' if default else ''), reading, (n, SPECS, default), ['read', 'rejected'],
                       'every combination of formats and values'))
    for k in ('whole', 'numpy number'):
        us.append(Unit('reading, %s' % k, reading, (2, [k, 'text', 'm and error', 'nothing'], False), ['read', 'rejected'], 'every combination of formats and values'))
    us.append(Unit('reading several targets', reading, (4 if tier == 'quick' else 5, ['number', 'range', 'm and error', 'target', 'no m'], False), ['read', 'rejected'],
                   'every combination of formats and values'))
    return us
