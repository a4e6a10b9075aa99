"""C15: unit-interval converters are monotone bijections onto the domain."""
import math
import numpy as np
from sims_pars.fit.base import Domain
from sims_pars.fit.converter import get_converter
from .common import Unit

BOUNDS = 'every domain with finite or infinite ends (lower below upper), every positive scale and every location; every u in [0, 1] and every value'
OUTSIDE = 'rounding of floating-point numbers (numbers are real); numbers large enough to overflow'
ASSUMPTIONS = ['exp and log are inverse to each other and increasing, exp is positive']


def domain(S, lo, hi, how):
    kw = {}
    if lo:
        kw['lower'] = S.real('lower')
    elif how == 'explicit':
        kw['lower'] = -math.inf
    if hi:
        kw['upper'] = S.real('upper')
    elif how == 'explicit':
        kw['upper'] = math.inf
    if lo and hi:
        S.assume(S.less(kw['lower'], kw['upper']))
        S.tame(kw['upper'] - kw['lower'] >= 0.001)
    scale, loc = 1, 0
    if how != 'plain':
        scale, loc = S.real('scale', gt=0), S.real('loc')
        kw['scale'] = scale
        kw['loc'] = loc
    S.tame(S.and_(scale >= 0.00001, scale <= 1000, loc >= -100, loc <= 100))
    for k in ('lower', 'upper'):
        if k in kw:
            S.tame(S.or_(S.not_(S.finite(kw[k])), S.and_(kw[k] >= -100, kw[k] <= 100)))
    d = Domain('x', 'float', **kw)
    return d, kw.get('lower', -math.inf), kw.get('upper', math.inf), scale, loc


def unit_number(S, name, np_):
    u = S.npreal(name) if np_ else S.real(name)
    S.assume(S.and_(S.less(0, u), S.less(u, 1)))
    S.tame(S.and_(u >= 0.001, u <= 0.999))
    return u


def forth(S, lo, hi, how, np_):
    """from the unit interval to the domain and back"""
    d, L, U, scale, loc = domain(S, lo, hi, how)
    c = get_converter(d)
    u = unit_number(S, 'u', np_)
    w = unit_number(S, 'w', np_)
    S.assume(S.less(u, w))
    S.tame(w - u >= 0.001)
    v, x = c.uniform2value(u), c.uniform2value(w)
    S.reach('converted')
    for y in (v, x):
        S.prove(S.finite(y), 'interior numbers give finite values')
        S.prove(S.and_(S.less(L, y), S.less(y, U)), 'the value lies inside the domain')
    S.prove(S.less(v, x), 'the conversion is strictly increasing')
    S.prove(S.close(c.value2uniform(v), u), 'converting a number to a value and back returns the number')


def back(S, lo, hi, how, np_):
    """from the domain to the unit interval and back"""
    d, L, U, scale, loc = domain(S, lo, hi, how)
    c = get_converter(d)
    v = S.npreal('v') if np_ else S.real('v')
    x = S.npreal('x') if np_ else S.real('x')
    S.assume(S.and_(S.less(L, v), S.less(v, x), S.less(x, U)))
    mid = L if lo else (U if hi else loc)
    S.tame(S.and_(x - v >= 0.001 * scale, x - mid <= 6 * scale, mid - v <= 6 * scale))
    if lo and hi:
        S.tame(S.and_(v - L >= 0.00001, U - x >= 0.00001))
    u, w = c.value2uniform(v), c.value2uniform(x)
    S.reach('converted')
    for y in (u, w):
        S.prove(S.and_(S.less(0, y), S.less(y, 1)), 'interior values give numbers in (0, 1)')
    S.prove(S.less(u, w), 'the inverse is strictly increasing')
    S.prove(S.close(c.uniform2value(u), v), 'converting an interior value to a number and back returns the value')


def ends(S, lo, hi, how, kind):
    d, L, U, scale, loc = domain(S, lo, hi, how)
    c = get_converter(d)
    z, o = {'int': (0, 1), 'float': (0.0, 1.0), 'numpy': (np.float64(0), np.float64(1))}[kind]
    S.reach('converted')
    S.prove(S.close(c.uniform2value(z), L), '0 gives the lower end')
    S.prove(S.close(c.uniform2value(o), U), '1 gives the upper end')


def units(tier):
    us = []
    for lo in (True, False):
        for hi in (True, False):
            w = '%s, %s' % ('lower' if lo else '-inf', 'upper' if hi else 'inf')
            for how in ('plain', 'scaled', 'explicit'):
                for np_ in (False, True):
                    t = '%s, %s%s' % (w, how, ', numpy numbers' if np_ else '')
                    us.append(Unit('to values: ' + t, forth, (lo, hi, how, np_), ['converted'], 'any domain of this kind'))
                    us.append(Unit('to numbers: ' + t, back, (lo, hi, how, np_), ['converted'], 'any domain of this kind'))
                for kind in ('int', 'float', 'numpy'):
                    us.append(Unit('ends: %s, %s, %s' % (w, how, kind), ends, (lo, hi, how, kind), ['converted'], 'any domain of this kind'))
    return us
