"""Random functions as nondeterministic stubs, and their native replacement during replay.

Symbolically a draw is a fresh variable constrained to the support; natively (replay) the k-th draw returns the k-th value
of the counterexample.  The records carry what was asked for, so that harnesses can state obligations about it.
"""
import contextlib
import random as pyrandom
import numpy as np
import z3
from scipy.stats import qmc
from scipy.stats.qmc import LatinHypercube
from . import core
from .core import AND, OR, NOT, SNum, SBool, Union, Unsupported, lift, raise_, raise_if, merge_all, mk_bool, const_of
from .containers import IList, entries, count
from .arr import SArr, npify
from .interp import INTERP

M = INTERP.models
LOG = []
QUEUE = None


class NoDraw(Exception):
    pass


def E():
    return core.ENG


def ax(c):
    """constrains a draw, only where the draw happens (an impossible request has failed by now)"""
    E().axiom(core.zb(OR(NOT(E().g.expr), c)))


def record(kind, vars_, **info):
    g = E().g.expr
    r = dict(kind=kind, vars=vars_, g=g)
    r.update(info)
    r['value'] = None
    E().draws.append(r)
    return r


def fresh_real(kind, lo=None, hi=None, strict_hi=False):
    v = E().fresh('draw_' + kind, z3.RealSort())
    if lo is not None:
        E().axiom(v >= core.num_val(lo))
    if hi is not None:
        E().axiom(v < core.num_val(hi) if strict_hi else v <= core.num_val(hi))
    return v


def shape(size):
    if size is None:
        return None
    size = INTERP.concrete(size, 'size')
    return size if isinstance(size, tuple) else (int(size),)


def fill(size, mk, kind, **info):
    sh = shape(size)
    if sh is None:
        v = mk()
        r = record(kind, [v.e], **info)
        r['value'] = v
        return v
    n = int(np.prod(sh))
    vs = [mk() for _ in range(n)]
    r = record(kind, [v.e for v in vs], **info)
    out = np.empty(sh, dtype=object)
    for i, ix in enumerate(np.ndindex(sh)):
        out[ix] = vs[i]
    r['value'] = SArr(out)
    return r['value']


def m_random(size=None, **k):
    return fill(size, lambda: SNum(fresh_real('u', 0, 1, True), np=True), 'random')


def positive(x, what):
    if isinstance(x, SArr):
        return
    raise_if(core.n_lt(lift(x), lift(0)), ValueError('%s < 0' % what))


def m_normal(loc=0.0, scale=1.0, size=None):
    positive(scale, 'scale')
    return fill(size, lambda: SNum(E().fresh('draw_n', z3.RealSort()), np=True), 'normal', loc=loc, scale=scale)


def m_uniform(low=0.0, high=1.0, size=None):
    lo, hi = lift(low), lift(high)

    def mk():
        v = E().fresh('draw_unif', z3.RealSort())
        if lo.plain and hi.plain:
            a, b = core.zreal(lo.e), core.zreal(hi.e)
            ax(z3.And(z3.Implies(a <= b, z3.And(v >= a, v <= b)), z3.Implies(a < b, v < b)))
        return SNum(v, np=True)
    return fill(size, mk, 'uniform', low=low, high=high)


def m_exponential(scale=1.0, size=None):
    return fill(size, lambda: SNum(fresh_real('exp', 0), np=True), 'exponential', scale=scale)


def m_poisson(lam=1.0, size=None):
    raise_if(OR(core.n_lt(lift(lam), lift(0)), lift(lam).nan), ValueError('lam < 0 or lam is NaN'))

    def mk():
        v = E().fresh('draw_pois', z3.IntSort())
        E().axiom(v >= 0)
        return SNum(v, np=True)
    return fill(size, mk, 'poisson', lam=lam)


def m_binomial(n, p, size=None):
    raise_if(core.n_lt(lift(n), lift(0)), ValueError('n < 0'))
    raise_if(OR(core.n_lt(lift(p), lift(0)), core.n_lt(lift(1), lift(p)), lift(p).nan), ValueError('p < 0, p > 1 or p is NaN'))

    def mk():
        v = E().fresh('draw_binom', z3.IntSort())
        E().axiom(v >= 0)
        nn = lift(n)
        if nn.plain:
            ax(v <= nn.e)
        pp = lift(p)
        if pp.plain:
            pe = core.zreal(pp.e)
            ax(z3.Implies(pe <= 0, v == 0))
            if nn.plain:
                ax(z3.Implies(pe >= 1, v == nn.e))
        return SNum(v, np=True)
    return fill(size, mk, 'binomial', n=n, p=p)


def m_randint(low, high=None, size=None, dtype=None):
    if high is None:
        low, high = 0, low
    raise_if(core.n_le(lift(high), lift(low)), ValueError('low >= high'))

    def mk():
        v = E().fresh('draw_int', z3.IntSort())
        ax(z3.And(v >= lift(low).e, v < lift(high).e))
        return SNum(v, np=True)
    return fill(size, mk, 'randint', low=low, high=high)


def pick(items, k):
    """items[k] for a symbolic index k"""
    c = const_of(k)
    if c is not None:
        return items[int(c)]
    return merge_all([(core.cmp_(k.e == i), x) for i, x in enumerate(items)])


def m_choice(a, size=None, replace=True, p=None):
    """index drawn among the items (of positive probability)"""
    if type(a) is Union:
        a = a.pick()
    if type(a) in (int, SNum, np.int64):
        n = INTERP.concrete(a, 'choice')
        items = [np.int64(i) for i in range(n)]
    else:
        es = entries(a)
        if any(c is not True for c, _ in es):
            es = [(True, v) for v in IList.of(es)]
        items = [v for _, v in es]
        n = len(items)
    if n == 0:
        raise_(ValueError('a must be greater than 0 unless no samples are taken'))
    ps = None
    if p is not None:
        p = SArr.make(p)
        ps = [lift(v) for v in p.a.flat]
        if len(ps) != n:
            raise_(ValueError("'a' and 'p' must have same size"))
        bad = OR(*[OR(v.nan, core.n_lt(v, lift(0))) for v in ps])
        raise_if(bad, ValueError('probabilities are not non-negative'))
        tot = ps[0]
        for v in ps[1:]:
            tot = core.n_add(tot, v)
        raise_if(NOT(AND(core.n_lt(lift(1 - 1.5e-8), tot), core.n_lt(tot, lift(1 + 1.5e-8)))), ValueError('probabilities do not sum to 1'))
    sh = shape(size)
    cnt = 1 if sh is None else int(np.prod(sh))
    replace = INTERP.concrete(replace, 'replace')
    if not replace and cnt > n:
        raise_(ValueError("Cannot take a larger sample than population when 'replace=False'"))
    ks = []
    for _ in range(cnt):
        k = E().fresh('draw_ix', z3.IntSort())
        E().axiom(z3.And(k >= 0, k < n))
        if ps is not None:
            for i, v in enumerate(ps):
                pos = core.n_lt(lift(0), v)
                if pos is not True:
                    ax(z3.Implies(k == i, core.zb(pos)))
        ks.append(k)
    if not replace and cnt > 1:
        E().axiom(z3.Distinct(*ks))
    r = record('choice', ks, n=n, p=IList([SNum(v.e, v.nan, v.pinf, v.ninf) for v in ps]) if ps is not None else None,
               size=size, replace=replace, index=[SNum(k) for k in ks])
    vals = [npick(items, SNum(k, np=True)) for k in ks]
    if sh is None:
        r['value'] = vals[0]
        return vals[0]
    out = np.empty(sh, dtype=object)
    for i, ix in enumerate(np.ndindex(sh)):
        out[ix] = vals[i]
    r['value'] = SArr(out)
    return r['value']


def npick(items, k):
    if all(isinstance(x, np.int64) and int(x) == i for i, x in enumerate(items)):
        return k
    return pick(items, k)


def m_permutation(x):
    if type(x) in (int, SNum):
        items = list(range(INTERP.concrete(x, 'permutation')))
    else:
        items = list(IList(x))
    n = len(items)
    ks = []
    for _ in range(n):
        k = E().fresh('draw_perm', z3.IntSort())
        E().axiom(z3.And(k >= 0, k < n))
        ks.append(k)
    if n > 1:
        E().axiom(z3.Distinct(*ks))
    record('permutation', ks, n=n)
    return SArr.make([npick([np.int64(v) if isinstance(v, int) else v for v in items], SNum(k, np=True)) for k in ks])


def m_shuffle(x):
    ks = m_permutation(len(IList(x)))
    items = list(IList(x))
    new = [pick(items, lift(k)) for k in ks]
    for i, v in enumerate(new):
        INTERP.setitem(x, i, v)


RS = {'random': m_random, 'random_sample': m_random, 'sample': m_random, 'ranf': m_random, 'normal': m_normal,
      'uniform': m_uniform, 'exponential': m_exponential, 'poisson': m_poisson, 'binomial': m_binomial,
      'choice': m_choice, 'randint': m_randint, 'permutation': m_permutation, 'shuffle': m_shuffle,
      'rand': lambda *a: m_random(a if a else None), 'randn': lambda *a: m_normal(0.0, 1.0, a if a else None),
      'standard_normal': lambda size=None: m_normal(0.0, 1.0, size),
      'standard_exponential': lambda size=None: m_exponential(1.0, size)}
for _n, _f in RS.items():
    M[getattr(np.random, _n)] = _f


class RNG:
    """numpy Generator / RandomState object"""
    __sx__ = True

    def __init__(self, *a, **k):
        pass

    def sx_getattr(self, name):
        f = {'integers': m_randint}.get(name) or RS.get(name)
        if f is None:
            if name.startswith('__'):
                return core.UNDEF
            raise Unsupported('random method ' + name)
        return f


for _f in RS.values():
    _f.__sx__ = True
M[np.random.default_rng] = RNG
M[np.random.RandomState] = RNG


class LHC:
    """scipy.stats.qmc.LatinHypercube: points of the unit cube (their stratification is not modelled)"""
    __sx__ = True

    def __init__(self, d, *a, **k):
        self.d = int(INTERP.concrete(d, 'dimension'))

    def sx_getattr(self, name):
        if name == 'random':
            return lambda n=1, **k: m_random((int(INTERP.concrete(n, 'size')), self.d))
        if name.startswith('__'):
            return core.UNDEF
        raise Unsupported('LatinHypercube.' + name)


M[LatinHypercube] = LHC
M[pyrandom.random] = lambda: m_random()
M[pyrandom.uniform] = lambda a, b: m_uniform(a, b)
M[pyrandom.gauss] = lambda a=0.0, b=1.0: m_normal(a, b)
M[pyrandom.normalvariate] = lambda a=0.0, b=1.0: m_normal(a, b)
M[pyrandom.randint] = lambda a, b: m_randint(a, b + 1)
M[pyrandom.randrange] = lambda a, b=None: m_randint(a, b)
M[pyrandom.choice] = lambda xs: m_choice(xs)
M[pyrandom.expovariate] = lambda l: m_exponential(1.0 / l)


def py_choices(xs, weights=None, *, cum_weights=None, k=1):
    if cum_weights is not None:
        raise Unsupported('cum_weights')
    if weights is None:
        return IList(m_choice(IList(xs), k))
    w = SArr.make(weights)
    return IList(m_choice(IList(xs), k, True, w / w.sum()))


M[pyrandom.choices] = py_choices
M[pyrandom.sample] = lambda xs, k: IList(m_choice(IList(xs), k, False))
M[pyrandom.shuffle] = m_shuffle


# ------------------------------------------------------------------ native replacement
class Native:
    """serves the recorded values"""

    def __init__(self, draws):
        self.q = list(draws)
        self.i = 0

    def take(self, kind, n):
        if self.i >= len(self.q):
            raise NoDraw('no draw left for ' + kind)
        d = self.q[self.i]
        self.i += 1
        if d['kind'] != kind or len(d['values']) != n:
            raise NoDraw('%s/%d asked, %s/%d recorded' % (kind, n, d['kind'], len(d['values'])))
        return d['values']

    def vals(self, kind, size, conv, **info):
        if size is None:
            v = conv(self.take(kind, 1)[0])
            LOG.append(dict(kind=kind, value=v, **info))
            return v
        sh = size if isinstance(size, tuple) else (int(size),)
        n = int(np.prod(sh))
        v = np.array([conv(x) for x in self.take(kind, n)]).reshape(sh)
        LOG.append(dict(kind=kind, value=v, **info))
        return v


def native_table(nat):
    def random(size=None, **k):
        return nat.vals('random', size, np.float64)

    def normal(loc=0.0, scale=1.0, size=None):
        if np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        return nat.vals('normal', size, np.float64, loc=loc, scale=scale)

    def uniform(low=0.0, high=1.0, size=None):
        return nat.vals('uniform', size, np.float64, low=low, high=high)

    def exponential(scale=1.0, size=None):
        return nat.vals('exponential', size, np.float64, scale=scale)

    def poisson(lam=1.0, size=None):
        return nat.vals('poisson', size, np.int64, lam=lam)

    def binomial(n, p, size=None):
        if not 0 <= p <= 1:
            raise ValueError('p < 0, p > 1 or p is NaN')
        return nat.vals('binomial', size, np.int64, n=n, p=p)

    def randint(low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        return nat.vals('randint', size, np.int64, low=low, high=high)

    def choice(a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            items = np.arange(a)
        else:
            items = np.array(list(a), dtype=object) if not isinstance(a, np.ndarray) else a
            if len(items) and isinstance(a, (list, tuple)) and all(isinstance(x, str) for x in a):
                items = np.array(a)
        if len(items) == 0:
            raise ValueError('a must be greater than 0 unless no samples are taken')
        if p is not None:
            q = np.asarray(p, dtype=float)
            if q.shape != (len(items),):
                raise ValueError("'a' and 'p' must have same size")
            if np.any(np.isnan(q)) or np.any(q < 0):
                raise ValueError('probabilities are not non-negative')
            if abs(q.sum() - 1) > 1e-6:
                raise ValueError('probabilities do not sum to 1')
        n = 1 if size is None else int(np.prod(size))
        if not replace and n > len(items):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        ks = [int(k) for k in nat.take('choice', n)]
        LOG.append(dict(kind='choice', n=len(items), p=None if p is None else list(np.asarray(p, dtype=float)), size=size,
                        replace=replace, index=ks))
        if size is None:
            v = items[ks[0]]
        else:
            v = items[ks].reshape(size if isinstance(size, tuple) else (int(size),))
        LOG[-1]['value'] = v
        return v

    def permutation(x):
        items = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(list(x))
        ks = [int(k) for k in nat.take('permutation', len(items))]
        return items[ks]

    def shuffle(x):
        items = list(x)
        ks = [int(k) for k in nat.take('permutation', len(items))]
        for i, k in enumerate(ks):
            x[i] = items[k]
    t = dict(random=random, random_sample=random, sample=random, ranf=random, normal=normal, uniform=uniform,
             exponential=exponential, poisson=poisson, binomial=binomial, randint=randint, choice=choice,
             permutation=permutation, shuffle=shuffle)
    t['rand'] = lambda *a: random(a if a else None)
    t['randn'] = lambda *a: normal(0.0, 1.0, a if a else None)
    t['standard_normal'] = lambda size=None: normal(0.0, 1.0, size)
    t['standard_exponential'] = lambda size=None: exponential(1.0, size)
    return t


@contextlib.contextmanager
def patched(draws):
    """replace numpy.random.* and random.* (also where modules imported them by name)"""
    import sys
    del LOG[:]
    nat = Native(draws)
    t = native_table(nat)
    py = dict(random=lambda: float(t['random']()), uniform=t['uniform'], gauss=t['normal'], normalvariate=t['normal'],
              randint=lambda a, b: int(t['randint'](a, b + 1)), choice=lambda xs: xs[int(t['choice'](len(xs)))],
              expovariate=lambda l: t['exponential'](1.0 / l),
              sample=lambda xs, k: [xs[int(i)] for i in t['choice'](len(xs), k, False)],
              randrange=lambda a, b=None: int(t['randint'](a, b)))

    def choices(xs, weights=None, *, cum_weights=None, k=1):
        w = None if weights is None else np.asarray(weights, dtype=float) / np.sum(weights)
        return [xs[int(i)] for i in t['choice'](len(xs), k, True, w)]
    py['choices'] = choices
    orig = {getattr(np.random, n): f for n, f in t.items()}
    orig.update({getattr(pyrandom, n): f for n, f in py.items() if hasattr(pyrandom, n)})

    class NatRNG:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, n):
            if n == 'integers':
                return t['randint']
            return t[n]

    class NatLHC:
        def __init__(self, d, *a, **k):
            self.d = d

        def random(self, n=1, **k):
            return t['random']((n, self.d))
    orig[LatinHypercube] = NatLHC
    orig[np.random.default_rng] = NatRNG
    orig[np.random.RandomState] = NatRNG
    saved = []
    mods = [np.random, pyrandom, qmc] + [m for k, m in list(sys.modules.items()) if k.startswith('sims_pars') and m is not None]
    for m in mods:
        for k, v in list(vars(m).items()):
            try:
                f = orig.get(v)
            except TypeError:
                continue
            if f is not None:
                saved.append((m, k, v))
                setattr(m, k, f)
    extra = [p for p in EXTRA_PATCHES]
    undo = [p(nat, LOG) for p in extra]
    try:
        yield nat
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
        for u in undo:
            u()


EXTRA_PATCHES = []
