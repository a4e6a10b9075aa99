"""C20: history matching keeps plausible points inside nested bounds."""
import numpy as np
from sims_pars.fit.base import Particle, Domain
from sims_pars.fit.converter import get_converter
from sims_pars.fit.hme.alg import BayesHistoryMatching, Matchers, StateHME
from .common import Unit

BOUNDS = 'waves of up to three simulated and four emulated points of up to two parameters and two targets; any predictions, emulator variances, targets and random points'
OUTSIDE = 'larger waves; the fit of the emulators themselves (see C28); waves that keep no point (the code fails); the stratification of the Latin hypercube; bounds other than those listed'
ASSUMPTIONS = ['the emulator is any function of the coordinates with a positive variance', 'parameters lie in boxes (C15 has the other domains)']
NAMES = ('tgt', 'aux')


class Target:
    """an observation with its variance"""

    def __init__(self, v, var):
        self.Value, self.Var = v, var

    def ev(self):
        return self.Value, self.Var


class Emulator:
    """any function of the coordinates; notes what it was trained on"""

    def __init__(self, S, name, sd):
        self.S, self.name, self.sd, self.seen, self.asked = S, name, sd, None, None

    def train(self, xs, ys):
        self.seen = (list(xs), list(ys))

    def predict(self, xs):
        self.asked = xs
        return (np.array([[self.S.fn('m_' + self.name, *[x for x in row])] for row in xs]),
                np.array([[self.sd] for row in xs]))


class Toy:
    """a simulator: any function of the parameters"""

    def __init__(self, S, doms, data):
        self.S, self.Domain, self.Data, self.served = S, doms, data, []

    def simulate(self, pars):
        self.served.append(dict(pars))
        return Particle(dict(pars), {k: self.truth(k, pars) for k in self.Data} | {'more': 1.0})

    def truth(self, k, pars):
        return self.S.fn('s_' + k, *[pars[d.Name] for d in self.Domain])

    def flatten(self, pt):
        pt['Xs'] = [pt.Pars[d.Name] for d in self.Domain]
        pt['Ys'] = {k: pt.Sims[k] for k in self.Data}


DOMS = (('b', 2.0, 6.0), ('a', -1.0, 1.0))
VARS = {'equal': (1.0, 1.0), 'unequal': (0.25, 4.0)}


def setting(S, n_pars, n_tgt, n_sims, n_ems, bounds, cut, min_acc, wave=0, max_wave=3):
    doms = [Domain(n, 'Double', lo, up) for n, lo, up in DOMS[:n_pars]]
    data = {k: Target(S.real('e_' + k), 0.75 + i) for i, k in enumerate(NAMES[:n_tgt])}
    m = Toy(S, doms, data)
    alg = BayesHistoryMatching(max_wave=max_wave, n_sims=n_sims, n_ems=n_ems, n_pars=n_pars, cutoff=cut, min_acc=min_acc, var_model=0.25)
    alg.attach(m)
    ems = {k: Emulator(S, k, 3.0 + 5.25 * i) for i, k in enumerate(NAMES[:n_tgt])}
    lo, up = np.array([b[0] for b in bounds[:n_pars]]), np.array([b[1] for b in bounds[:n_pars]])
    alg.State = StateHME(ems, [get_converter(d) for d in doms], Matchers(0.25, data), [], (lo, up), wave=wave)
    return m, alg, ems, lo, up


def num(x):
    """the number in an array of one"""
    return x[0] if hasattr(x, 'shape') and x.shape == (1,) else x


def off(S, m, ems, k, i, y):
    """the square of the implausibility"""
    v = 0.25 + m.Data[k].Var + ems[k].sd
    return abs(m.Data[k].Value - y) / ({4.0: 2.0, 10.25: 3.2015621187164243}[v])


def implausible(S, n_tgt, vars_):
    data, pt = {}, Particle({}, {})
    ys, vs, ks = {}, {}, NAMES[:n_tgt]
    for i, k in enumerate(ks):
        data[k] = Target(S.real('e_' + k), VARS[vars_][i] * 0.5)
        ys[k], vs[k] = S.real('y_' + k), S.real('v_' + k)
        S.assume(vs[k] > 0)
        S.tame(S.and_(vs[k] < 50, vs[k] > 0.05, ys[k] < 50, ys[k] > -50, data[k].Value < 50, data[k].Value > -50))
    vm = S.real('vm')
    S.assume(vm >= 0)
    S.tame(vm < 20)
    pt['Ys'], pt['Vs'] = {k: np.array([ys[k]]) for k in ks}, {k: np.array([vs[k]]) for k in ks}
    got = Matchers(vm, data).eval_implausibility(pt)
    S.reach('judged')
    S.prove(got >= 0, 'implausibility is not negative')
    ims = [abs(data[k].Value - ys[k]) / np.sqrt(vm + data[k].Var + vs[k]) for k in ks]
    for im in ims:
        S.prove(S.leq(im, got), 'implausibility is at least that of every target')
    S.prove(S.or_(*[S.close(im, got) for im in ims]), 'implausibility is that of a target')


def keeping(S, n, min_acc):
    cut = S.real('cut')
    S.tame(S.and_(cut > -40, cut < 40))
    m, alg, ems, lo, up = setting(S, 1, 1, 2, n, [(0.0, 1.0)], 3, min_acc)
    alg.Settings['cutoff'] = cut
    pts = []
    for i in range(n):
        p = Particle({'i': i}, {})
        p['Imp'] = S.real('imp%d' % i)
        S.tame(S.and_(p['Imp'] > -40, p['Imp'] < 40))
        pts.append(p)
    kept, co, acc = alg._keep_plausible(pts)
    S.reach('kept')
    S.prove(co >= cut, 'the cut-off is never below the configured one')
    S.prove(S.or_(S.close(co, cut), *[S.and_(co <= a['Imp'] + 0.0001, co >= b['Imp'] - 0.0001) for a in pts for b in pts]), 'a larger cut-off lies among the points')
    n_in = 0
    for i, p in enumerate(pts):
        was = S.or_(*[q.Pars['i'] == i for q in kept])
        S.prove(S.iff(was, p['Imp'] < co), 'exactly the points below the cut-off are kept')
        n_in = n_in + (1 if was else 0)
    S.prove(len(kept) == n_in, 'each point is kept once')
    S.prove(S.close(acc * n, n_in), 'the share kept is reported')
    # the cut-off rises until the requested share lies below
    if co > cut + 0.001:
        below = 0
        for p in pts:
            below = below + (1 if p['Imp'] <= co + 0.0001 else 0)
        S.prove(below >= min_acc * (n - 1) - 0.0001, 'the cut-off rises to the requested share')
        strict = 0
        for p in pts:
            strict = strict + (1 if p['Imp'] < co - 0.0001 else 0)
        S.prove(strict <= min_acc * (n - 1) + 1, 'not beyond the requested share')
        S.reach('raised')


def a_wave(S, n_pars, n_tgt, n_sims, n_ems, bounds, cut, min_acc):
    m, alg, ems, lo, up = setting(S, n_pars, n_tgt, n_sims, n_ems, bounds, cut, min_acc, wave=1)
    old = alg.State
    # the wave itself, keeping at least one point
    pts = alg._simulate(old)
    emu = alg._emulate(pts, old)
    kept, co, acc = alg._keep_plausible(emu)
    S.assume(len(kept) > 0)
    S.reach('a wave')
    names = [d.Name for d in m.Domain]
    S.prove(len(pts) == n_sims and len(m.served) == n_sims, 'as many simulations as configured')
    for p in pts:
        xs = p['Xs']
        for j, (nm, a, b) in enumerate(DOMS[:n_pars]):
            S.prove(S.and_(S.leq(lo[j], xs[j]), S.leq(xs[j], up[j])), 'simulated points are inside the bounds')
            S.prove(S.close(p.Pars[nm], a + xs[j] * (b - a)), 'simulated parameters are those of the coordinates')
        S.prove(S.and_(*[S.close(p['Ys'][k], m.truth(k, p.Pars)) for k in m.Data]), 'simulated outputs are those of the parameters')
    for k, e in ems.items():
        S.prove(len(e.seen[0]) == n_sims and len(e.seen[1]) == n_sims, 'emulators are trained on every simulation')
        for x, y, p in zip(e.seen[0], e.seen[1], pts):
            S.prove(S.and_(*[S.close(x[j], p['Xs'][j]) for j in range(n_pars)]), 'emulators are trained in unit coordinates')
            S.prove(S.and_(*[S.leq(lo[j], x[j]) for j in range(n_pars)], *[S.leq(x[j], up[j]) for j in range(n_pars)]), 'training coordinates are inside the bounds')
            S.prove(S.close(y[k], m.truth(k, {nm: a + x[j] * (b - a) for j, (nm, a, b) in enumerate(DOMS[:n_pars])})), 'emulators are trained on the outputs at the coordinates')
    S.prove(len(emu) == n_ems, 'as many emulated points as configured')
    for p in emu:
        xs = p['Xs']
        for j, (nm, a, b) in enumerate(DOMS[:n_pars]):
            S.prove(S.and_(S.leq(lo[j], xs[j]), S.leq(xs[j], up[j])), 'emulated points are inside the bounds')
            S.prove(S.close(p.Pars[nm], a + xs[j] * (b - a)), 'emulated parameters are those of the coordinates')
        worst = 0
        for i, k in enumerate(m.Data):
            y = num(p['Ys'][k])
            S.prove(S.close(y, S.fn('m_' + k, *[x for x in xs])), 'predictions are those of the emulator there')
            S.prove(S.close(num(p['Vs'][k]), ems[k].sd), 'variances are those of the emulator')
            im = off(S, m, ems, k, i, y)
            worst = im if im > worst else worst
        S.prove(S.close(p['Imp'], worst), 'the implausibility of a point')


class Fixed(BayesHistoryMatching):
    def _simulate(self, state):
        return []

    def _emulate(self, pts, state):
        return self.points


def whole_wave(S, n_pars, n_sims, n_ems, bounds, cut, min_acc):
    """the state after a wave"""
    doms = [Domain(n, 'Double', lo, up) for n, lo, up in DOMS[:n_pars]]
    data = {'tgt': Target(S.real('e_tgt'), 0.75)}
    alg = Fixed(max_wave=3, n_sims=n_sims, n_ems=n_ems, n_pars=n_pars, cutoff=cut, min_acc=min_acc)
    alg.attach(Toy(S, doms, data))
    lo, up = [S.real('lo%d' % j) for j in range(n_pars)], [S.real('up%d' % j) for j in range(n_pars)]
    alg.points = []
    for i in range(n_ems):
        p = Particle({}, {})
        p['Xs'] = np.array([S.real('x%d_%d' % (i, j)) for j in range(n_pars)])
        for j in range(n_pars):
            S.assume(S.and_(lo[j] <= p['Xs'][j], p['Xs'][j] <= up[j]))
            S.tame(S.and_(lo[j] >= 0, up[j] <= 1))
        p['Ys'] = {'tgt': float(i)}
        p['Imp'] = S.real('imp%d' % i, 0, 100)
        p['Vs'] = {'tgt': 1.0}
        alg.points.append(p)
    ems = {'tgt': Emulator(S, 'tgt', 1.0)}
    cons = [get_converter(d) for d in doms]
    mt = Matchers(0.25, data)
    w = S.int('wave', 0, 9)
    alg.State = StateHME(ems, cons, mt, [], (np.array(lo), np.array(up)), wave=w)
    ims = [p['Imp'] for p in alg.points]
    thr = max(cut, np.quantile(ims, min_acc))
    ins = [S.concrete(1 if im < thr else 0) == 1 for im in ims]
    S.assume(any(ins))
    alg._a_wave()
    s = alg.State
    S.reach('after')
    S.prove(s.Wave == w + 1, 'waves are counted')
    S.prove(S.and_(S.close(s.CutOff, thr), s.CutOff >= cut), 'the cut-off in force is recorded')
    want = [p for p, t in zip(alg.points, ins) if t]
    S.prove(len(s.Particles) == len(want) and all(a is b for a, b in zip(s.Particles, want)), 'the plausible points are kept')
    S.prove(S.close(s.Acc * n_ems, len(want)), 'the share kept is recorded')
    for j in range(n_pars):
        a, b = s.Bounds[0][j], s.Bounds[1][j]
        S.prove(S.and_(*[S.and_(a <= p['Xs'][j], p['Xs'][j] <= b) for p in want]), 'the bounds hold every kept point')
        S.prove(S.and_(S.or_(*[a == p['Xs'][j] for p in want]), S.or_(*[b == p['Xs'][j] for p in want])), 'the bounds are the smallest')
        S.prove(S.and_(lo[j] <= a, b <= up[j]), 'the bounds are inside the previous ones')
    S.prove(s.Emulators is ems and s.Converters is cons and s.Matchers is mt, 'emulators, converters and matchers are kept')


def stopping(S):
    m, alg, ems, lo, up = setting(S, 1, 1, 2, 2, [(0.0, 1.0)], 3, 0.2)
    alg.Settings['max_wave'] = S.int('max', 1, 40)
    alg.State.Wave = S.int('wave', 0, 50)
    S.reach('checked')
    S.prove(S.iff(alg._check_termination(), alg.State.Wave >= alg.Settings['max_wave']), 'stops at the configured maximum')


class Counted(BayesHistoryMatching):
    def _a_wave(self):
        self.count = self.count + 1
        s = self.State
        self.State = StateHME(s.Emulators, s.Converters, s.Matchers, [], s.Bounds, wave=s.Wave + 1)


def running(S, most):
    k = S.int('max', 1, most)
    alg = Counted(max_wave=k)
    alg.count = 0
    alg.State = StateHME({}, [], None, [], (np.zeros(1), np.ones(1)))
    alg.update()
    S.reach('ran')
    S.prove(S.and_(alg.count == k, alg.State.Wave == k), 'runs the configured number of waves')


def collecting(S, n_pars, k, bounds):
    m, alg, ems, lo, up = setting(S, n_pars, 1, 2, 2, bounds, 3, 0.2, wave=3)
    alg.State.MSE, alg.State.Acc, alg.State.CutOff = S.real('mse'), S.real('acc'), S.real('co')
    po = alg.sample_posteriors(k)
    S.reach('collected')
    S.prove(len(po) == k and len(m.served) == k, 'as many as asked')
    for p in po.Particles:
        for j, (nm, a, b) in enumerate(DOMS[:n_pars]):
            S.prove(S.and_(S.leq(a + lo[j] * (b - a), p.Pars[nm]), S.leq(p.Pars[nm], a + up[j] * (b - a))), 'posterior points are inside the bounds')
        S.prove(S.close(p['Ys']['tgt'], m.truth('tgt', p.Pars)), 'outputs are simulated')
    S.prove(S.and_(S.close(po['CutOff'], alg.State.CutOff), S.close(po['Acceptance'], alg.State.Acc), S.close(po['MSE'], alg.State.MSE)), 'the last wave is reported')
    for (nm, l, u), (dn, a, b), j in zip(po['Bounds'], DOMS, range(n_pars)):
        S.prove(nm == dn and S.and_(S.close(l, a + lo[j] * (b - a)), S.close(u, a + up[j] * (b - a))), 'the bounds are reported in the units of the parameters')


def units(tier):
    q = tier == 'quick'
    us = []
    for n in (1, 2):
        for v in VARS:
            us.append(Unit('implausibility of %d targets, %s' % (n, v), implausible, (n, v), ['judged'], 'any target, prediction and variances'))
    for n in (2, 3, 4) if q else (2, 3, 4, 5):
        for acc in (0.2, 0.5, 0.75):
            us.append(Unit('keeping of %d, at least %s' % (n, acc), keeping, (n, acc), ['kept', 'raised'], 'any implausibilities and cut-off'))
    B1, B2, B3 = ((0.0, 1.0), (0.0, 1.0)), ((0.25, 0.5), (0.5, 1.0)), ((0.125, 0.875), (0.25, 0.75))
    for b in (B1, B2) if q else (B1, B2, B3):
        for n_pars, n_tgt, n_sims, n_ems in ((1, 1, 2, 2), (2, 1, 2, 2), (1, 2, 3, 2), (2, 2, 2, 2)) + (() if q else ((2, 2, 3, 3), (1, 1, 2, 4))):
            us.append(Unit('wave of %d parameters, %d targets, %d+%d points within %s' % (n_pars, n_tgt, n_sims, n_ems, b), a_wave,
                           (n_pars, n_tgt, n_sims, n_ems, b, 3, 0.5), ['a wave'], 'any points and outputs'))
        us.append(Unit('posterior within %s' % (b,), collecting, (2, 3, b), ['collected'], 'any points'))
    for n_pars, n_ems, cut, acc in ((1, 3, 3, 0.2), (2, 3, 2.5, 0.5), (1, 4, 3, 0.75)) + (() if q else ((2, 4, 3, 0.2), (3, 3, 1, 0.5), (1, 5, 3, 0.5))):
        us.append(Unit('state after a wave of %d, %d parameters, %s' % (n_ems, n_pars, acc), whole_wave, (n_pars, 2, n_ems, None, cut, acc), ['after'],
                       'any points inside any bounds'))
    us.append(Unit('stopping', stopping, (), ['checked'], 'any state'))
    us.append(Unit('running', running, (4 if q else 8,), ['ran'], 'any maximum'))
    return us
