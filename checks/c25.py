"""C25: hazards invert exactly; survival draws follow the scaled hazard."""
import numpy as np
from scipy.special import gamma
from sims_pars.data.reg.hazard import ExponentialHazard, WeibullHazard, EmpiricalHazard, HazardDistribution, ZeroInflatedHazardDistribution
from sims_pars.data.reg.survival import CoxRegression, ZeroInflatedCoxRegression
from .common import Unit
from .c24 import covariates

BOUNDS = 'any positive rates, shapes, times and risk ratios; empirical baselines of up to n points; up to k regressors; up to n draws at once'
OUTSIDE = 'densities at times within 1e-5 of zero; mean and standard deviation of empirical baselines (not defined)'
ASSUMPTIONS = ['arithmetic over the reals; exp, log and gamma are the mathematical functions, of which the usual laws are used',
               'an exponential variate of scale s is s times a standard one; a uniform one u stands for the standard exponential -log(u) or -log(1-u)']


def baseline(S, kind, n=3):
    """a hazard, its definition for find_baseline, and what it should compute"""
    if kind == 'exp':
        r = S.real('rate', gt=0)
        S.tame(S.and_(r >= 0.1, r <= 5))
        return ExponentialHazard(r), {'Type': 'exp', 'Rate': r}, lambda t: r * t, lambda rr: (1 / (r * rr), 1 / (r * rr))
    if kind == 'weibull':
        lam, k = S.real('lam', gt=0), S.real('k', gt=0)
        S.tame(S.and_(lam >= 0.1, lam <= 5, k >= 0.5, k <= 3))

        def moments(rr):
            # H(t) rr = (lam rr^(1/k) t)^k
            a = np.exp(np.log(lam) + np.log(rr) / k)
            g1, g2 = gamma(1 + 1 / k), gamma(1 + 2 / k)
            return g1 / a, (g2 - g1 * g1) / (a * a)
        return WeibullHazard(lam, k), {'Type': 'Weibull', 'Lambda': lam, 'K': k}, lambda t: np.exp(k * np.log(lam * t)), moments
    ts, hs = [S.real('t0', lo=0)], [S.real('h0', lo=0)]
    for i in range(1, n):
        ts.append(ts[-1] + S.real('dt%d' % i, gt=0))
        hs.append(hs[-1] + S.real('dh%d' % i, gt=0))
    S.tame(S.and_(ts[-1] <= 50, hs[-1] <= 50, *[S.and_(ts[i] - ts[i - 1] >= 0.125, hs[i] - hs[i - 1] >= 0.125) for i in range(1, n)]))

    def line(t):
        v = hs[-1]
        for i in reversed(range(n - 1)):
            if S.leq(t, ts[i + 1]):
                v = hs[i] + (hs[i + 1] - hs[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
        return v
    return EmpiricalHazard(ts, hs), {'Type': 'Empirical', 'Time': ts, 'CumHaz': hs}, line, (ts, hs)


def inverse(S, kind, n=3):
    h, js, want, mo = baseline(S, kind, n)
    t, u = S.real('t', gt=0), S.real('u', gt=0)
    S.tame(S.and_(t >= 0.1, t <= 5, u >= 0.1, u <= 5))
    if kind == 'empirical':
        ts, hs = mo
        S.assume(S.and_(S.leq(ts[0], t), S.leq(t, ts[-1]), S.leq(ts[0], u), S.leq(u, ts[-1])))
    S.reach('made')
    S.prove(S.close(h.cum_hazard(t), want(t)), 'the cumulative hazard')
    S.prove(S.close(h.inv_cum_hazard(h.cum_hazard(t)), t), 'the inverse undoes the cumulative hazard')
    S.prove(S.iff(S.less(t, u), S.less(h.cum_hazard(t), h.cum_hazard(u))), 'the cumulative hazard increases')
    if kind == 'empirical':
        a = S.real('a')
        S.prove(S.implies(S.less(ts[-1], a), S.close(h.cum_hazard(a), hs[-1])), 'the last value beyond the last time')
        S.prove(S.implies(S.less(hs[-1], a), S.close(h.inv_cum_hazard(a), ts[-1])), 'the last time beyond the last value')
        S.prove(S.implies(S.less(a, ts[0]), S.close(h.cum_hazard(a), 0)), 'no hazard before the first time')
        return
    S.prove(S.close(h.cum_hazard(h.inv_cum_hazard(t)), t), 'the cumulative hazard undoes its inverse')
    S.prove(S.iff(S.less(t, u), S.less(h.inv_cum_hazard(t), h.inv_cum_hazard(u))), 'the inverse increases')


def moments(S, kind):
    h, js, want, mo = baseline(S, kind)
    rr, p = S.real('rr', gt=0), S.real('p', lo=0, hi=1)
    S.tame(S.and_(rr >= 0.1, rr <= 5))
    S.reach('made')
    m, s = mo(1)
    m2, s2 = mo(rr)
    if kind == 'weibull':
        # the variance is not negative
        S.axiom(S.and_(S.leq(0, s), S.leq(0, s2)), 'Gamma(1+2/k) >= Gamma(1+1/k)^2')
        s, s2 = np.sqrt(s), np.sqrt(s2)
    S.prove(S.close(h.mean(), m), 'mean of the waiting time')
    S.prove(S.close(h.std(), s), 'standard deviation of the waiting time')
    d = HazardDistribution(h, rr)
    S.prove(S.close(d.mean(), m2), 'mean of the survival time')
    S.prove(S.close(d.std(), s2), 'standard deviation of the survival time')
    z = ZeroInflatedHazardDistribution(p, h, rr)
    S.prove(S.close(z.mean(), (1 - p) * m2), 'mean of the zero-inflated survival time')


def densities(S, kind, zero):
    """the density is the slope of the distribution function over 1e-5"""
    h, js, want, mo = baseline(S, kind)
    rr, t, p = S.real('rr', gt=0), S.real('t', gt=0.001), S.real('p', gt=0, lt=1)
    S.tame(S.and_(rr >= 0.1, rr <= 5, t >= 0.1, t <= 3, p >= 0.1, p <= 0.9))
    S.reach('made')
    f = (np.exp(-want(t - 1e-5) * rr) - np.exp(-want(t) * rr)) / 1e-5
    if zero:
        d = ZeroInflatedHazardDistribution(p, h, rr)
        S.prove(S.close(d.logpdf(0), np.log(p)), 'log probability of zero')
        S.prove(near(S, np.exp(d.logpdf(t)), (1 - p) * f), 'density of a positive time')
    else:
        d = HazardDistribution(h, rr)
        S.prove(near(S, np.exp(d.logpdf(t)), f), 'density of a survival time')


def near(S, a, b):
    """finite differences lose digits natively"""
    return S.leq(abs(a - b), 0.0001 * (1 + abs(b)))


def units_of(S, ds):
    """standard exponential variates behind the draws, each as a list of alternatives"""
    out = []
    for d in ds:
        v = d['value']
        vs = [v] if S.number(v) else list(v)
        if d['kind'] == 'exponential':
            out.extend([[x / d['scale']] for x in vs])
        elif d['kind'] == 'random':
            out.extend([[-np.log(x), -np.log(1 - x)] for x in vs])
    return out


def draws(S, kind, zero, n, reg):
    h, js, want, mo = baseline(S, kind)
    p, lc, xs, effect = None, None, None, None
    if reg:
        regs, xs, effect = covariates(S, 'b', reg)
        rr = np.exp(effect)
        if zero:
            regs0, xs0, effect0 = covariates(S, 'z', ('Continuous',))
            xs = {**xs, **xs0}
            b0 = S.real('intercept')
            p = np.exp(effect0 + b0), None
            m = ZeroInflatedCoxRegression({'PrZero': {'Intercept': b0, 'Regressors': regs0}, 'PrTTE': {'Baseline': js, 'Regressors': regs}})
        else:
            m = CoxRegression({'Baseline': js, 'Regressors': regs})
        S.prove(m.get_variable_type() == 'Double', 'the type of the variable')
        d = m.get_sampler(xs)
    else:
        rr = S.real('rr', gt=0)
        S.tame(S.and_(rr >= 0.1, rr <= 5))
        if zero:
            p = S.real('p', lo=0, hi=1)
            d = ZeroInflatedHazardDistribution(p, h, rr)
        else:
            d = HazardDistribution(h, rr)
    k0 = S.mark_draws()
    if n == 'predict':
        v = m.predict(xs)
    elif n == 'call':
        v = d()
    elif n is None:
        v = d.sample()
    else:
        v = d.sample(n)
    S.reach('drawn')
    single = n in ('predict', 'call', None, 1)
    if single and kind == 'empirical':
        v = v + 0       # an array without dimensions
    ds = S.draws(k0)
    if single:
        S.prove(S.number(v), 'one draw is a single value')
        vs = [v]
    else:
        S.prove(len(v) == n, 'as many values as requested')
        vs = list(v)
    es = [d_ for d_ in ds if d_['kind'] == 'exponential']
    us = [d_ for d_ in ds if d_['kind'] == 'random']
    lots = []
    if zero:
        # the uniform variates decide about zero, unless nothing but uniform variates were drawn
        for d_ in us[:1] if not es else us:
            x = d_['value']
            lots.extend([x] if S.number(x) else list(x))
        us = us[1:] if not es else []
    std = units_of(S, es or us)
    S.prove(len(std) == len(vs), 'one variate for each value')
    for i, x in enumerate(vs):
        if zero:
            S.prove(len(lots) == len(vs), 'one zero event for each value')
            S.prove(S.implies(S.not_(zero_event(S, lots[i], p)), S.or_(*[timed(S, kind, h, want, mo, x, e, rr) for e in std[i]])), 'the scaled hazard at the draw is standard exponential')
            S.prove(S.implies(zero_event(S, lots[i], p), x == 0), 'zero with the stated probability')
        else:
            S.prove(S.or_(*[timed(S, kind, h, want, mo, x, e, rr) for e in std[i]]), 'the scaled hazard at the draw is standard exponential')


def zero_event(S, u, p):
    if isinstance(p, tuple):
        return S.less(u * (1 + p[0]), p[0])     # by the odds
    return S.less(u, p)


def timed(S, kind, h, want, mo, x, e, rr):
    """H(x) rr = e"""
    if kind == 'empirical':
        ts, hs = mo
        return S.or_(S.and_(S.leq(hs[0], e / rr), S.close(want(x) * rr, e)), S.and_(S.less(e / rr, hs[0]), S.close(x, 0)), S.and_(S.less(hs[-1], e / rr), S.close(x, ts[-1])))
    return S.or_(S.and_(x == 0, S.close(e, 0)), S.and_(S.less(0, x), S.close(want(x) * rr, e)))


def expectations(S, kind, zero, types):
    h, js, want, mo = baseline(S, kind)
    regs, xs, effect = covariates(S, 'b', types)
    rr = np.exp(effect)
    if zero:
        regs0, xs0, effect0 = covariates(S, 'z', types[-1:])
        xs = {**xs, **xs0}
        b0 = S.real('intercept')
        odds = np.exp(effect0 + b0)
        m = ZeroInflatedCoxRegression({'PrZero': {'Intercept': b0, 'Regressors': regs0}, 'PrTTE': {'Baseline': js, 'Regressors': regs}})
        S.prove(S.close(m.get_sampler(xs).Prob * (1 + odds), odds), 'the probability of zero')
        S.prove(S.close(m.expectation(xs) * (1 + odds), mo(rr)[0]), 'the expectation')
    else:
        m = CoxRegression({'Baseline': js, 'Regressors': regs})
        S.prove(S.close(m.expectation(xs), mo(rr)[0]), 'the expectation')
    S.reach('made')
    S.prove(S.close(m.get_sampler(xs).RiskRatio, rr), 'the risk ratio')


def units(tier):
    us = []
    q = tier == 'quick'
    for kind in ('exp', 'weibull', 'empirical'):
        for n in (3,) if kind != 'empirical' else (2, 3, 4) if q else (2, 3, 4, 5):
            us.append(Unit('inverse, %s%s' % (kind, ', %d points' % n if kind == 'empirical' else ''), inverse, (kind, n), ['made'], 'any parameters and times'))
        if kind != 'empirical':
            us.append(Unit('moments, %s' % kind, moments, (kind,), ['made'], 'any parameters and risk ratio'))
            for z in (False, True):
                us.append(Unit('density, %s%s' % (kind, ', zero-inflated' if z else ''), densities, (kind, z), ['made'], 'any parameters, risk ratio and time'))
                us.append(Unit('expectation, %s%s' % (kind, ', zero-inflated' if z else ''), expectations, (kind, z, ('Continuous', 'Boolean') if q else ('Continuous', 'Categorical', 'Boolean')), ['made'], 'any coefficients and covariates'))
        for z in (False, True):
            for n in (None, 'call', 1, 2, 3):
                us.append(Unit('draw %s, %s%s' % (n, kind, ', zero-inflated' if z else ''), draws, (kind, z, n, ()), ['drawn'], 'any parameters, risk ratio and variates'))
            for n, t in (('predict', 'Continuous'), ('predict', 'Boolean'), ('predict', 'Categorical'), (1, 'Continuous'), (2, 'Continuous')):
                us.append(Unit('regression draw %s on %s, %s%s' % (n, t, kind, ', zero-inflated' if z else ''), draws, (kind, z, n, (t,)), ['drawn'],
                               'any coefficients, covariates and variates'))
    return us
