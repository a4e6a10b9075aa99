"""scipy.stats distributions and pydantic creators over symbolic parameters.

A frozen distribution is its family with its parameters; moments, support and log densities are the textbook formulas of
scipy's parametrisation (the replays compare them with scipy itself); a draw is any value inside the support.
"""
import math
import typing
import numpy as np
import pydantic
import scipy.stats as sts
import z3
from scipy.stats._distn_infrastructure import rv_frozen, rv_generic, rv_continuous, rv_discrete
from . import core, rand
from .core import AND, OR, NOT, SBool, SNum, Union, UNDEF, Unsupported, lift, lift_union, raise_if, mk_bool, n_ite
from .containers import IDict, ISet, deep_sym
from .arr import SArr
from .interp import INTERP, ours_class
from .models import M, uf, DICTGET

LG = uf('lgamma')
INF, NINF, NAN, ZERO, ONE = lift(math.inf), lift(-math.inf), lift(math.nan), lift(0.0), lift(1.0)
FAMILIES = ('norm', 'expon', 'gamma', 'uniform', 'beta', 'chi2', 'invgamma', 'lognorm', 'triang', 'binom', 'poisson')


def E():
    return core.ENG


def r(v):
    v = lift(v)
    return SNum(core.zreal(v.e), v.nan, v.pinf, v.ninf, True)


def add(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = core.n_add(t, x)
    return t


def sub(a, b):
    return core.n_add(a, core.n_neg(b))


mul, div, log, sqrt, lt, le, eq_ = core.n_mul, core.n_div, core.n_log, core.n_sqrt, core.n_lt, core.n_le, core.n_eq


def xlogy(x, y):
    """x log y with 0 log y = 0, for y > 0 (or y = 0 and x of any sign)"""
    c = core.const_of(x)
    if c == 0:
        return ZERO
    p = mul(x, log(y))
    z = eq_(x, ZERO)
    return p if z is False else n_ite(core.zb(z), ZERO, p)


class SDist:
    """a frozen scipy distribution with symbolic parameters"""
    __sx__ = True

    def __init__(self, gen, args, kw):
        self.gen, self.family = gen, gen.name
        if self.family not in FAMILIES:
            raise Unsupported('scipy distribution ' + self.family)
        self.discrete = isinstance(gen, rv_discrete)
        shapes = [s.strip() for s in gen.shapes.split(',')] if gen.shapes else []
        names = shapes + ['loc'] + ([] if self.discrete else ['scale'])
        p = dict(zip(names, args))
        if len(args) > len(names) or set(kw) - set(names) or set(kw) & set(p):
            core.raise_(TypeError('arguments of ' + self.family))
        p.update(kw)
        for s in shapes:
            if s not in p:
                core.raise_(TypeError('missing argument ' + s))
        self.p = {n: r(p.get(n, 1 if n == 'scale' else 0)) for n in names}
        for v in self.p.values():
            if v.plain is False and E().feasible(OR(v.pinf, v.ninf, v.nan)):
                raise Unsupported('non-finite parameter of ' + self.family)
        self.loc, self.scale = self.p['loc'], self.p.get('scale', ONE)

    def bad(self):
        """parameters scipy does not accept"""
        p, f = self.p, self.family
        c = [NOT(lt(ZERO, self.scale))]
        for s in ('a', 'b', 's', 'df'):
            if s in p:
                c.append(NOT(lt(ZERO, p[s])))
        if f == 'triang':
            c += [lt(p['c'], ZERO), lt(ONE, p['c'])]
        if f == 'binom':
            c += [lt(p['p'], ZERO), lt(ONE, p['p']), lt(p['n'], ZERO), NOT(mk_bool(z3.IsInt(p['n'].e)).e if not z3.is_rational_value(p['n'].e) else p['n'].e.denominator_as_long() == 1)]
        if f == 'poisson':
            c += [lt(p['mu'], ZERO)]
        c = OR(*c)
        return c if c is False or E().feasible(c) else False

    def ok(self, v):
        b = self.bad()
        return v if b is False else n_ite(core.zb(b), NAN, v)

    def ends(self):
        f, p = self.family, self.p
        if f == 'norm':
            return NINF, INF
        if f in ('uniform', 'beta', 'triang'):
            return self.loc, add(self.loc, self.scale)
        if f == 'binom':
            return self.loc, add(self.loc, p['n'])
        return self.loc, INF

    def interval(self, confidence=None, *a, **k):
        c = INTERP.concrete(confidence if confidence is not None else k.get('alpha'), 'interval')
        if c != 1:
            raise Unsupported('interval of other mass than 1')
        lo, hi = self.ends()
        if self.discrete:
            lo = sub(lo, ONE)
        return self.ok(lo), self.ok(hi)

    def support(self):
        lo, hi = self.ends()
        return self.ok(lo), self.ok(hi)

    def mean(self):
        f, p = self.family, self.p
        if f == 'norm':
            m = ZERO
        elif f == 'expon':
            m = ONE
        elif f == 'gamma':
            m = p['a']
        elif f == 'uniform':
            m = r(0.5)
        elif f == 'beta':
            m = div(p['a'], add(p['a'], p['b']))
        elif f == 'chi2':
            m = p['df']
        elif f == 'invgamma':
            m = n_ite(core.zb(lt(ONE, p['a'])), div(ONE, sub(p['a'], ONE)), INF)
        elif f == 'lognorm':
            m = core.n_exp(div(mul(p['s'], p['s']), r(2.0)))
        elif f == 'triang':
            m = div(add(p['c'], ONE), r(3.0))
        elif f == 'binom':
            m = mul(p['n'], p['p'])
        else:
            m = p['mu']
        return self.ok(add(self.loc, mul(m, self.scale)))

    def var(self):
        f, p = self.family, self.p
        if f in ('norm', 'expon'):
            v = ONE
        elif f == 'gamma':
            v = p['a']
        elif f == 'uniform':
            v = div(ONE, r(12.0))
        elif f == 'beta':
            s = add(p['a'], p['b'])
            v = div(mul(p['a'], p['b']), mul(mul(s, s), add(s, ONE)))
        elif f == 'chi2':
            v = mul(r(2.0), p['df'])
        elif f == 'invgamma':
            a1 = sub(p['a'], ONE)
            v = n_ite(core.zb(lt(r(2.0), p['a'])), div(ONE, mul(mul(a1, a1), sub(p['a'], r(2.0)))), INF)
        elif f == 'lognorm':
            s2 = mul(p['s'], p['s'])
            v = mul(sub(core.n_exp(s2), ONE), core.n_exp(s2))
        elif f == 'triang':
            v = div(add(sub(ONE, p['c']), mul(p['c'], p['c'])), r(18.0))
        elif f == 'binom':
            v = mul(mul(p['n'], p['p']), sub(ONE, p['p']))
        else:
            v = p['mu']
        return self.ok(mul(v, mul(self.scale, self.scale)))

    def std(self):
        f, p = self.family, self.p
        if f in ('norm', 'expon'):
            return self.ok(self.scale)
        if f == 'uniform':
            return self.ok(div(self.scale, sqrt(r(12.0))))
        return npf(sqrt(self.var()))

    def median(self):
        raise Unsupported('median')

    # densities
    def logpdf(self, x):
        if self.discrete:
            core.raise_(AttributeError("'rv_discrete_frozen' object has no attribute 'logpdf'"))
        return self.density(x)

    def logpmf(self, x, loc=None):
        if not self.discrete:
            core.raise_(AttributeError("'rv_continuous_frozen' object has no attribute 'logpmf'"))
        return self.density(x)

    def pdf(self, x):
        return M[np.exp](self.logpdf(x))

    def pmf(self, x):
        return M[np.exp](self.logpmf(x))

    def density(self, x):
        if type(x) is Union:
            return lift_union(x, self.density)
        if isinstance(x, (list, tuple, np.ndarray, SArr)):
            return SArr.make(x).map(self.density)
        if not core.is_num(x):
            core.raise_(TypeError('density of %s' % type(x).__name__))
        x = r(x)
        fl = OR(x.pinf, x.ninf)
        v = self.log_at(SNum(x.e, np=True))
        if fl is not False and E().feasible(fl):
            v = n_ite(core.zb(fl), NINF, v)
        nan = OR(self.bad(), x.nan)
        if nan is not False and E().feasible(nan):
            v = n_ite(core.zb(nan), NAN, v)
        return npf(v)

    def log_at(self, x):
        f, p = self.family, self.p
        y = div(sub(x, self.loc), self.scale)
        ls = log(self.scale) if core.const_of(self.scale) != 1 else ZERO
        if f == 'norm':
            return sub(sub(core.n_neg(div(mul(y, y), r(2.0))), r(math.log(math.sqrt(2 * math.pi)))), ls)
        below = lt(y, ZERO)
        if f == 'expon':
            return pick([(below, NINF)], lambda: sub(core.n_neg(y), ls))
        if f == 'uniform':
            return pick([(OR(below, lt(ONE, y)), NINF)], lambda: core.n_neg(ls))
        if f in ('gamma', 'chi2'):
            a = p['a'] if f == 'gamma' else div(p['df'], r(2.0))
            c = lg(a) if f == 'gamma' else add(lg(a), mul(a, log(r(2.0))))
            w = y if f == 'gamma' else div(y, r(2.0))
            a1 = sub(a, ONE)
            return pick([(below, NINF), (AND(eq_(y, ZERO), lt(a, ONE)), INF), (AND(eq_(y, ZERO), lt(ONE, a)), NINF),
                         (eq_(y, ZERO), lambda: core.n_neg(add(c, ls)))],
                        lambda: sub(sub(xlogy(a1, y), w), add(c, ls)))
        if f == 'beta':
            a, b = p['a'], p['b']
            z = sub(ONE, y)
            const = add(sub(add(lg(a), lg(b)), lg(add(a, b))), ls)
            return pick([(OR(below, lt(z, ZERO)), NINF), (AND(eq_(y, ZERO), lt(a, ONE)), INF), (AND(eq_(y, ZERO), lt(ONE, a)), NINF),
                         (AND(eq_(z, ZERO), lt(b, ONE)), INF), (AND(eq_(z, ZERO), lt(ONE, b)), NINF),
                         (OR(eq_(y, ZERO), eq_(z, ZERO)), lambda: core.n_neg(const))],
                        lambda: sub(add(xlogy(sub(a, ONE), y), xlogy(sub(b, ONE), z)), const))
        if f == 'triang':
            c = p['c']
            out = OR(below, lt(ONE, y))
            up = lambda: log(n_ite(core.zb(eq_(c, ZERO)), mul(r(2.0), sub(ONE, y)), div(mul(r(2.0), y), c)))
            down = lambda: log(n_ite(core.zb(eq_(c, ONE)), mul(r(2.0), y), div(mul(r(2.0), sub(ONE, y)), sub(ONE, c))))
            return pick([(out, NINF), (lt(y, c), lambda: sub(up(), ls))], lambda: sub(down(), ls))
        if f == 'invgamma':
            a = p['a']
            return pick([(le(y, ZERO), NINF)], lambda: sub(sub(core.n_neg(mul(add(a, ONE), log(y))), div(ONE, y)), add(lg(a), ls)))
        if f == 'lognorm':
            s = p['s']

            def body():
                w = div(log(y), s)
                return sub(core.n_neg(div(mul(w, w), r(2.0))), add(add(log(s), log(y)), add(r(math.log(math.sqrt(2 * math.pi))), ls)))
            return pick([(le(y, ZERO), NINF)], body)
        # counts
        k = sub(x, self.loc)
        whole = z3.IsInt(k.e) if not z3.is_rational_value(k.e) else k.e.denominator_as_long() == 1
        if f == 'poisson':
            mu = p['mu']
            return pick([(OR(lt(k, ZERO), NOT(whole)), NINF), (eq_(mu, ZERO), lambda: n_ite(core.zb(eq_(k, ZERO)), ZERO, NINF))],
                        lambda: sub(sub(xlogy(k, mu), lg(add(k, ONE))), mu))
        n, q = p['n'], p['p']
        l = sub(n, k)
        comb = lambda: sub(lg(add(n, ONE)), add(lg(add(k, ONE)), lg(add(l, ONE))))
        return pick([(OR(lt(k, ZERO), lt(n, k), NOT(whole)), NINF),
                     (eq_(q, ZERO), lambda: n_ite(core.zb(eq_(k, ZERO)), ZERO, NINF)),
                     (eq_(q, ONE), lambda: n_ite(core.zb(eq_(k, n)), ZERO, NINF))],
                    lambda: add(comb(), add(xlogy(k, q), xlogy(l, sub(ONE, q)))))

    # draws
    def rvs(self, size=None, random_state=None, **k):
        if type(size) is Union:
            return lift_union(size, lambda n: self.rvs(n))
        raise_if(self.bad(), ValueError('Domain error in arguments'))
        lo, hi = self.ends()

        def mk():
            v = E().fresh('draw_' + self.family, z3.IntSort() if self.discrete else z3.RealSort())
            x = SNum(v if not self.discrete else z3.ToReal(v))
            for a, b in ((lo, x), (x, hi)):
                c = le(a, b) if self.discrete else lt(a, b)
                if c is not True:
                    rand.ax(c)
            if self.family == 'binom':
                rand.ax(z3.Implies(self.p['p'].e <= 0, x.e == lo.e))
                rand.ax(z3.Implies(self.p['p'].e >= 1, x.e == hi.e))
            return SNum(v, np=True)
        return rand.fill(size, mk, 'rvs', dist=self)

    def sx_getattr(self, name):
        if name in ('rvs', 'logpdf', 'logpmf', 'pdf', 'pmf', 'mean', 'std', 'var', 'interval', 'support', 'median'):
            if name in ('logpdf', 'pdf') and self.discrete or name in ('logpmf', 'pmf') and not self.discrete:
                return UNDEF
            return getattr(self, name)
        if name == 'dist':
            return self.gen
        if name == 'kwds':
            return IDict(self.p)
        if name == 'args':
            return ()
        if name in ('family', 'p', 'gen', 'ok', 'bad', 'ends', 'density', 'log_at', 'loc', 'scale', 'discrete'):
            core.raise_(AttributeError(name))
        if not name.startswith('__'):
            raise Unsupported('method %s of a scipy distribution' % name)
        return UNDEF


def npf(v):
    return SNum(core.zreal(v.e), v.nan, v.pinf, v.ninf, True)


def lg(a):
    c = core.const_of(a)
    if c is not None and c > 0:
        return r(math.lgamma(c))
    return LG(a)


def pick(cases, other):
    """cases: [(condition, value or function)] tried in order; `other` otherwise"""
    out = []
    rest = True
    for c, v in cases + [(True, other)]:
        c2 = AND(rest, c)
        rest = AND(rest, NOT(c))
        if c2 is False or not E().feasible(c2):
            continue
        ok, x = E().under(core.simp(E().g, c2), v) if callable(v) else (True, v)
        out.append((c2, x))
    v = out[-1][1]
    for c, x in reversed(out[:-1]):
        v = n_ite(core.zb(c), x, v)
    return v


def freeze(gen, *args, **kw):
    for i, a in enumerate(args):
        if type(a) is Union:
            return lift_union(a, lambda x: freeze(gen, *args[:i], x, *args[i + 1:], **kw))
    for k, a in kw.items():
        if type(a) is Union:
            return lift_union(a, lambda x: freeze(gen, *args, **{**kw, k: x}))
    return SDist(gen, args, kw)


M[(rv_generic, '__call__')] = freeze


def direct(name, n):
    """methods of the families themselves: sts.norm.logpdf(x, loc, scale)"""
    def f(gen, *args, **kw):
        size = {'size': kw.pop('size')} if 'size' in kw else {}
        kw.pop('random_state', None)
        d = freeze(gen, *args[n:], **kw)
        return INTERP.call(INTERP.getattr(d, name), args[:n], size)
    return f


for _c in (rv_continuous, rv_discrete, rv_generic):
    for _n, _k in (('logpdf', 1), ('logpmf', 1), ('pdf', 1), ('pmf', 1), ('mean', 0), ('std', 0), ('var', 0), ('interval', 1), ('rvs', 0)):
        if hasattr(_c, _n):
            M[getattr(_c, _n)] = direct(_n, _k)
# frozen distributions made by native code
for _n in ('rvs', 'logpdf', 'logpmf', 'pdf', 'pmf', 'mean', 'std', 'var', 'interval'):
    for _c in (rv_frozen, sts._distn_infrastructure.rv_continuous_frozen, sts._distn_infrastructure.rv_discrete_frozen):
        if hasattr(_c, _n):
            M[getattr(_c, _n)] = (lambda n: lambda fr, *a, **k: INTERP.call(INTERP.getattr(freeze(fr.dist, *fr.args, **fr.kwds), n), a, k))(_n)


def native_rvs(nat, log):
    """replays: draws of scipy distributions are served as well"""
    old, old_gen = rv_frozen.rvs, rv_generic.rvs

    def check(dist, args, kwds):
        a, loc, scale = dist._parse_args(*args, **kwds)
        if not (np.all(dist._argcheck(*a)) and scale > 0):
            raise ValueError('Domain error in arguments')

    def serve(dist, size):
        conv = np.int64 if isinstance(dist, rv_discrete) else np.float64
        return nat.vals('rvs', None if size is None else size, conv, dist=dist)

    def rvs(self, size=None, random_state=None):
        check(self.dist, self.args, self.kwds)
        return serve(self.dist, size)

    def gen_rvs(self, *args, **kwds):
        size = kwds.pop('size', None)
        kwds.pop('random_state', None)
        check(self, args, kwds)
        return serve(self, size)
    saved = [(c, c.__dict__['rvs']) for c in (rv_frozen, rv_generic, rv_continuous, rv_discrete) if 'rvs' in c.__dict__]
    rv_frozen.rvs = rvs
    for c, _ in saved:
        if c is not rv_frozen:
            c.rvs = gen_rvs

    def undo():
        for c, f in saved:
            c.rvs = f
    return undo


rand.EXTRA_PATCHES.append(native_rvs)


# ------------------------------------------------------------------ pydantic creators
class PModel:
    """an instance of a pydantic model with symbolic fields"""
    __sx__ = True

    def __init__(self, cls, fields):
        self.sx_cls, self.sx_fields = cls, fields

    def sx_getattr(self, name):
        if name in self.sx_fields:
            return core.resolve(self.sx_fields[name])
        if name == '__class__':
            return self.sx_cls
        if name in ('dict', 'model_dump'):
            return lambda *a, **k: IDict(self.sx_fields)
        for k in self.sx_cls.__mro__:
            d = k.__dict__.get(name)
            if d is None:
                continue
            if isinstance(d, property):
                return INTERP.call(d.fget, (self,))
            if isinstance(d, (staticmethod, classmethod)):
                return INTERP.getattr(self.sx_cls, name)
            if ours_class(k) and callable(d):
                import types
                return types.MethodType(d, self)
            if name.startswith('__'):
                return UNDEF
            raise Unsupported('attribute %s of a pydantic model' % name)
        core.raise_(AttributeError(name))


def failure(cls, k):
    try:
        cls(**{k: object()})
    except pydantic.ValidationError as ex:
        return ex
    raise Unsupported('no validation of ' + k)


def limits(f):
    """[(kind, bound)] of a field"""
    out = []
    for m in f.metadata:
        for k in ('gt', 'ge', 'lt', 'le'):
            b = getattr(m, k, None)
            if b is not None:
                out.append((k, b))
        for k in ('multiple_of', 'func', 'pattern', 'min_length', 'max_length'):
            if getattr(m, k, None) is not None:
                raise Unsupported('constraint %s of a field' % k)
        if getattr(m, 'allow_inf_nan', None) is False:
            out.append(('finite', True))
    return out


def field_value(cls, k, f, v):
    """the validated value"""
    if type(v) is Union:
        return lift_union(v, lambda x: field_value(cls, k, f, x))
    tp = f.annotation
    if tp in (float, int):
        if not core.is_num(v):
            return getattr(conc(cls, {k: v}), k)
        v = lift(v)
        bad = []
        if tp is float:
            v = SNum(core.zreal(v.e), v.nan, v.pinf, v.ninf)
        elif v.is_int:
            v = SNum(v.e)
        else:
            bad += [v.nan, v.pinf, v.ninf, core.cmp_(z3.Not(z3.IsInt(v.e)))]
            v = SNum(z3.ToInt(v.e))
        for kind, b in limits(f):
            b = lift(b)
            if kind == 'finite':
                bad.append(NOT(v.finite))
            else:
                bad.append(NOT({'gt': lambda: lt(b, v), 'ge': lambda: le(b, v), 'lt': lambda: lt(v, b), 'le': lambda: le(v, b)}[kind]()))
        raise_if(OR(*bad), failure(cls, k))
        return v
    if typing.get_origin(tp) is dict and typing.get_args(tp) == (str, float) and isinstance(v, dict):
        d = v if isinstance(v, IDict) else IDict(v)
        out = IDict()
        for c, (a, x) in ((c, (a, x)) for a, (c, x) in d._items().items()):
            if not isinstance(a, str):
                raise_if(c, failure(cls, k))
                continue
            if not core.is_num(core.resolve(x)) and type(x) is not Union:
                raise Unsupported('category weight')
            x = core.lifted(lambda y: SNum(core.zreal(lift(y).e), lift(y).nan, lift(y).pinf, lift(y).ninf), x)
            out._set({**out._items(), a: (c, x)})
        return out
    raise Unsupported('symbolic value of a field of type %s' % (tp,))


def conc(cls, kw):
    return INTERP.native(cls, (), kw)


def new_model(cls, args, kw):
    if args:
        core.raise_(TypeError('BaseModel.__init__() takes 1 positional argument but %d were given' % (1 + len(args))))
    if getattr(cls, '__abstractmethods__', None):
        core.raise_(TypeError("Can't instantiate abstract class %s" % cls.__name__))
    if not deep_sym(kw) and not any(deep_sym(v) or type(v) in (SNum, SBool) or isinstance(v, IDict) for v in kw.values()):
        return conc(cls, kw)
    dec = cls.__pydantic_decorators__
    if any(getattr(dec, k) for k in ('validators', 'field_validators', 'root_validators', 'model_validators')) or cls.model_config:
        raise Unsupported('pydantic validators')
    if cls.__init__ is not pydantic.BaseModel.__init__:
        raise Unsupported('constructor of a pydantic model')
    # missing required fields and values which are not symbolic are validated by pydantic itself
    fields = {}
    for k, f in cls.model_fields.items():
        if k in kw:
            fields[k] = field_value(cls, k, f, kw[k])
        elif f.is_required():
            raise_if(True, failure(cls, k))
        else:
            fields[k] = f.get_default(call_default_factory=True)
    return PModel(cls, fields)


INTERP.new_models.append((lambda c: isinstance(c, type) and issubclass(c, pydantic.BaseModel), new_model))
