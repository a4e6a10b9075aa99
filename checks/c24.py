"""C24: regression predictors combine effects and links."""
import numpy as np
from sims_pars.data.reg.linear import LinearCombination, LinearRegression
from sims_pars.data.reg.glm import LogisticRegression, PoissonRegression, MultinomialLogisticRegression
from .common import Unit

BOUNDS = 'up to k regressors of any type, any coefficients, intercepts and covariates; up to c classes'
OUTSIDE = 'more regressors or classes; exponentials beyond the largest float'
ASSUMPTIONS = ['arithmetic over the reals; exp and the inverse logit are the mathematical functions', 'the category of a case is given by its position']


def covariates(S, p, k):
    """k regressors of any type (or of the types in k), a case, and the sum of their effects"""
    regs, xs, tot = [], {}, 0
    for i, t in enumerate(k if isinstance(k, tuple) else [None] * k):
        n = '%s%d' % (p, i)
        t = t or S.choice('type_' + n, ('Boolean', 'Continuous', 'Categorical'))
        if t == 'Boolean':
            c = S.real('c_' + n)
            x = S.int('i_' + n, 0, 2) if i % 2 else S.bool('b_' + n)
            e = c if x else 0
            r = {'Name': n, 'Type': t, 'Value': c}
        elif t == 'Continuous':
            c, x = S.real('c_' + n), S.real('x_' + n)
            e = c * x
            r = {'Name': n, 'Type': t, 'Value': c}
        else:
            cs = [S.real('c%d_%s' % (j, n)) for j in range(3)]
            x = S.int('k_' + n, 0, 2)
            e = cs[0] if x == 0 else cs[1] if x == 1 else cs[2]
            r = {'Name': n, 'Type': t, 'Values': cs, 'Labels': ['A', 'B', 'C'], 'Ref': 'A'}
        S.tame(S.and_(e <= 3, e >= -3))
        regs.append(r)
        xs[n] = x
        tot = tot + e
    return regs, xs, tot


def linear(S, k):
    regs, xs, tot = covariates(S, 'r', k)
    b, se = S.real('intercept'), S.real('se', gt=0)
    S.tame(S.and_(b <= 3, b >= -3, se >= 0.1, se <= 5))
    xs['other'] = S.real('other')
    lc = LinearCombination(regs)
    S.reach('made')
    S.prove(S.close(lc.predict(xs), tot), 'the sum of the effects')
    S.prove(S.same(list(lc.list_regressors()), ['r%d' % i for i in range(k)]), 'the regressors')
    m = LinearRegression({'Intercept': b, 'Regressors': regs, 'SE': se})
    S.prove(S.close(m.expectation(xs), b + tot), 'the linear predictor')
    S.prove(m.get_variable_type() == 'Double', 'the type of the variable')
    d = m.get_sampler(xs)
    S.prove(S.close(d.mean(), b + tot), 'the sampler has the expectation')
    S.prove(S.close(d.std(), se), 'the sampler has the standard error')
    for n in (1, 2):
        k0 = S.mark_draws()
        v = m.predict(xs, n)
        ds = [x for x in S.draws(k0) if x['kind'] == 'rvs']
        S.prove(len(ds) == 1, 'a prediction draws once')
        S.prove(S.number(v) if n == 1 else len(v) == n, 'as many predictions as requested')


def logistic(S, k):
    regs, xs, tot = covariates(S, 'r', k)
    b = S.real('intercept')
    S.tame(S.and_(b <= 3, b >= -3))
    m = LogisticRegression({'Intercept': b, 'Regressors': regs})
    S.reach('made')
    e = np.exp(b + tot)
    p = m.expectation(xs)
    S.prove(S.close(p * (1 + e), e), 'the inverse logit of the predictor')
    S.prove(S.and_(S.leq(0, p), S.leq(p, 1)), 'a probability')
    d = m.get_sampler(xs)
    S.prove(S.close(d.mean(), p), 'the sampler has the expectation')
    S.prove(S.close(d.std() * d.std(), p * (1 - p)), 'the sampler is one trial')
    S.prove(m.get_variable_type() == 'Integer', 'the type of the variable')
    k0 = S.mark_draws()
    v = m.predict(xs)
    S.prove(S.or_(v == 0, v == 1), 'a prediction is zero or one')
    for q in S.draws(k0):
        if q['kind'] == 'binomial':
            S.prove(S.and_(q['n'] == 1, S.close(q['p'], p)), 'predicted with the expectation')
            S.prove(q['value'] == v, 'the prediction is what was drawn')


def poisson(S, k):
    regs, xs, tot = covariates(S, 'r', k)
    b = S.real('intercept')
    S.tame(S.and_(b <= 3, b >= -3))
    m = PoissonRegression({'Intercept': b, 'Regressors': regs})
    S.reach('made')
    e = np.exp(b + tot)
    S.prove(S.close(m.expectation(xs), e), 'the exponential of the predictor')
    d = m.get_sampler(xs)
    S.prove(S.close(d.mean(), e), 'the sampler has the expectation')
    S.prove(S.close(d.std() * d.std(), e), 'the sampler is Poisson')
    S.prove(m.get_variable_type() == 'Integer', 'the type of the variable')
    k0 = S.mark_draws()
    v = m.predict(xs)
    S.prove(S.number(v), 'a prediction is a single value')
    S.prove(S.leq(0, v), 'a prediction is not negative')
    for q in S.draws(k0):
        if q['kind'] == 'poisson':
            S.prove(S.close(q['lam'], e), 'predicted with the expectation')
            S.prove(q['value'] == v, 'the prediction is what was drawn')


def multinomial(S, k, c, labels):
    """the classes share the covariates; each class has its own coefficients"""
    regs, lin, bs = [], [], []
    xs = {}
    for j in range(k):
        xs['r%d' % j] = S.real('x%d' % j)
    for i in range(c):
        cs = [S.real('c%d_%d' % (i, j)) for j in range(k)]
        b = S.real('b%d' % i)
        regs.append([{'Name': 'r%d' % j, 'Type': 'Continuous', 'Value': cs[j]} for j in range(k)])
        t = b + sum([cs[j] * xs['r%d' % j] for j in range(k)])
        S.tame(S.and_(t <= 3, t >= -3))
        lin.append(t)
        bs.append(b)
    js = {'Intercepts': bs, 'Regressions': regs}
    names = ['L%d' % (c - i) for i in range(c)] if labels else [str(i) for i in range(c)]
    if labels:
        js['Labels'] = names
    m = MultinomialLogisticRegression(js)
    S.reach('made')
    ps = m.expectation(xs)
    S.prove(len(ps) == c, 'one probability for each class')
    S.prove(S.and_(*[S.leq(0, p) for p in ps]), 'not negative')
    S.prove(S.close(sum(ps), 1), 'probabilities sum to one')
    S.prove(S.same(list(m.Labels), names), 'the labels')
    for i in range(c):
        for j in range(i):
            # increasing in the predictor of the class
            S.prove(S.iff(S.less(lin[i], lin[j]), S.less(ps[i], ps[j])), 'a larger predictor, a larger probability')
    d = m.get_sampler(xs)
    for n, p in zip(names, ps):
        S.prove(S.close(np.exp(d.logpdf(n)), p), 'the sampler has the expectation')
    k0 = S.mark_draws()
    v = m.predict(xs)
    for q in S.draws(k0):
        if q['kind'] == 'choice':
            for i, w in enumerate(q['p']):
                for n, p in zip(names, ps):
                    S.prove(S.implies(S.and_(q['index'][0] == i, v[0] == n), S.close(w, p)), 'predicted with the expectation')
    S.prove(S.or_(*[v[0] == n for n in names]), 'a prediction is one of the labels')
    S.prove(m.get_variable_type() == 'Category', 'the type of the variable')


def units(tier):
    us = []
    for k in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5):
        b = '%d regressors of any type' % k
        us.append(Unit('linear, %d' % k, linear, (k,), ['made'], b))
        us.append(Unit('logistic, %d' % k, logistic, (k,), ['made'], b))
        us.append(Unit('Poisson, %d' % k, poisson, (k,), ['made'], b))
    for k, c in ((1, 2), (2, 2), (1, 3)) if tier == 'quick' else ((1, 2), (2, 2), (1, 3), (2, 3), (1, 4), (2, 4)):
        for l in (True, False):
            us.append(Unit('multinomial, %d regressors, %d classes%s' % (k, c, ', labels' if l else ''), multinomial, (k, c, l), ['made'], 'any coefficients and covariates'))
    return us
