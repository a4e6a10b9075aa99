"""A small model of pandas frames and series: rows that may be present or not, with symbolic values."""
import math
import operator
import numpy as np
import pandas as pd
from . import core
from .core import AND, OR, NOT, Unsupported, UNDEF, merge, raise_, raise_if, lift
from . import containers as C
from .containers import IList, IDict, ISet, entries, count, eq
from .interp import INTERP, Iter
from .models import M, model, symbolic
from .arr import SArr


def E():
    return core.ENG


def key_eq(a, b):
    """== of labels"""
    return core.as_bool(eq(a, b))


def pick(alts, exc):
    """the value of the first alternative that holds, an error where none does"""
    none = NOT(OR(*[c for c, _ in alts]))
    raise_if(none, exc)
    out, seen = [], False
    for c, v in alts:
        out.append((AND(c, NOT(seen)), v))
        seen = OR(seen, c)
    return core.merge_all([(c, v) for c, v in out if c is not False])


class SSeries:
    """es: [(guard, label, value)]"""
    __sx__ = True
    sx_elementwise = True
    __hash__ = None

    def __init__(self, es, name=None):
        self.es, self.name = list(es), name

    def sx_len(self):
        return INTERP.length(IList.of([(c, 0) for c, _, _ in self.es]))

    def sx_entries(self):
        return [(c, v) for c, _, v in self.es]

    def sx_items(self):
        return [(c, k, v) for c, k, v in self.es]

    def sx_contains(self, k):
        return OR(*[AND(c, key_eq(k, l)) for c, l, _ in self.es])

    def keys(self):
        return IList.of([(c, k) for c, k, _ in self.es])

    def items(self):
        return Iter([(c, (k, v)) for c, k, v in self.es])

    def sx_getattr(self, name):
        if name == 'index':
            return self.keys()
        if name == 'values':
            return SArr.make(IList.of(self.sx_entries()))
        if name in ('iloc', 'iat'):
            return At(lambda i: IList.of(self.sx_entries()).sx_getitem(i))
        if name in ('loc', 'at'):
            return At(self.sx_getitem)
        return UNDEF

    def sx_getitem(self, k):
        if isinstance(k, SSeries):
            return SSeries([(AND(c, m), l, v) for (c, l, v), m in zip(self.es, mask(k, len(self.es)))], self.name)
        if isinstance(k, (list, IList)):
            return SSeries([(True, x, self.sx_getitem(x)) for x in INTERP.concrete(k, 'labels')], self.name)
        return pick([(AND(c, key_eq(k, l)), v) for c, l, v in self.es], KeyError(k))

    def sx_setitem(self, k, v):
        hit = [AND(c, key_eq(k, l)) for c, l, _ in self.es]
        old = list(self.es)
        self.es = [(c, l, merge(AND(E().g.expr, h), v, x)) for (c, l, x), h in zip(old, hit)]
        new = AND(E().g.expr, NOT(OR(*hit)))
        if new is not False and E().feasible(new):
            self.es.append((new, k, v))

    def get(self, k, default=None):
        c = self.sx_contains(k)
        return core.merge_all([(c, pick([(AND(g, key_eq(k, l)), v) for g, l, v in self.es] + [(NOT(c), default)], KeyError(k)))])

    def map(self, f):
        return SSeries([(c, l, f(v)) for c, l, v in self.es], self.name)

    def _op(self, o, fn):
        if isinstance(o, SSeries):
            if len(o.es) != len(self.es):
                raise Unsupported('series of different lengths')
            return SSeries([(AND(c, c2), l, fn(v, w)) for (c, l, v), (c2, _, w) in zip(self.es, o.es)], self.name)
        return self.map(lambda v: core.lifted(lambda x, y: fn(x, y), v, o))

    def __add__(self, o):
        return self._op(o, operator.add)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, operator.sub)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, operator.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        def div(a, b):
            return npnum(a) / npnum(b)
        return self._op(o, div)

    def __eq__(self, o):
        return self._op(o, lambda a, b: core.mk_bool(key_eq(a, b)))

    def __ne__(self, o):
        return self._op(o, lambda a, b: core.mk_bool(NOT(key_eq(a, b))))

    def __and__(self, o):
        return self._op(o, lambda a, b: core.mk_bool(AND(core.truth(a), core.truth(b))))

    def __or__(self, o):
        return self._op(o, lambda a, b: core.mk_bool(OR(core.truth(a), core.truth(b))))

    def __invert__(self):
        return self.map(lambda a: core.mk_bool(NOT(core.truth(a))))

    def isin(self, xs):
        ks = entries(xs)
        return self.map(lambda v: core.mk_bool(OR(*[AND(c, key_eq(v, k)) for c, k in ks])))

    def eq(self, o):
        return self == o

    def sum(self, *a, **k):
        tot = lift(0.0)
        for c, _, v in self.es:
            tot = tot + merge(c, v, 0.0)
        return npnum(tot)

    def div(self, o):
        return self / o

    def tolist(self):
        return IList.of(self.sx_entries())

    to_list = tolist

    def to_numpy(self, *a, **k):
        return SArr.make(self.tolist())

    def to_dict(self):
        return IDict(self)

    def copy(self, *a, **k):
        return SSeries(self.es, self.name)

    def reset_index(self, drop=False, **k):
        if drop:
            return SSeries([(c, n, v) for (c, _, v), n in zip(self.es, places(self.es))], self.name)
        return SFrame([(c, {self.name: (True, v)}, l) for c, l, v in self.es], getattr(self, 'levels', None)).reset_index()

    def to_frame(self, *a, **k):
        return SFrame([(c, {self.name: (True, v)}, l) for c, l, v in self.es], getattr(self, 'levels', None))


def npnum(v):
    from .arr import npify
    return npify(v)


def places(es):
    """positions among the present ones"""
    return [count([(e[0], 0) for e in es[:i]]) for i in range(len(es))]


def mask(k, n):
    if isinstance(k, SSeries):
        if len(k.es) != n:
            raise Unsupported('mask of another length')
        return [core.truth(v) for _, _, v in k.es]
    es = entries(k)
    if len(es) != n:
        raise Unsupported('mask of another length')
    return [core.truth(v) for _, v in es]


class At:
    __sx__ = True

    def __init__(self, get):
        self.get = get

    def sx_getitem(self, k):
        return self.get(k)


class Grouped:
    __sx__ = True

    def __init__(self, frame, keys, single, col=None):
        self.frame, self.keys, self.single, self.col = frame, keys, single, col

    def sx_getitem(self, col):
        return Grouped(self.frame, self.keys, self.single, col)

    def sx_getattr(self, name):
        return UNDEF

    def sum(self, *a, **k):
        return self.fold('sum')

    def mean(self, *a, **k):
        return self.fold('mean')

    def max(self, *a, **k):
        return self.fold('max')

    def min(self, *a, **k):
        return self.fold('min')

    def first(self, *a, **k):
        return self.fold('first')

    def last(self, *a, **k):
        return self.fold('last')

    def fold(self, how):
        if self.col is None or isinstance(self.col, (list, IList)):
            cols = [x for x in self.frame.labels() if x not in self.keys] if self.col is None else list(self.col)
            parts = [Grouped(self.frame, self.keys, self.single, x).fold(how) for x in cols]
            return SFrame([(p0[0], {x: (True, p.es[i][2]) for x, p in zip(cols, parts)}, p0[1]) for i, p0 in enumerate(parts[0].es)],
                          parts[0].levels)
        if not self.keys:
            raise_(ValueError('No group keys passed!'))
        groups = {}
        for c, row, _ in self.frame.rows:
            for c2, key in C.flat_keys(c, tuple(row[x][1] for x in self.keys)):
                groups.setdefault(key, []).append((c2, row[self.col][1]))
        out = []
        for key in sorted(groups):
            tot, num = lift(0.0), lift(0)
            for c, v in groups[key]:
                if how in ('sum', 'mean'):
                    tot = tot + merge(c, v, 0.0)
                    num = num + merge(c, lift(1), lift(0))
                else:
                    c2 = {'max': lambda: core.truth(tot < v), 'min': lambda: core.truth(v < tot), 'first': lambda: False, 'last': lambda: True}[how]()
                    none = core.truth(num == 0)
                    tot = merge(AND(c, OR(none, c2)), v, tot)
                    num = merge(c, lift(1), num)
            if how == 'mean':
                tot = npnum(tot) / npnum(num)
            out.append((OR(*[c for c, _ in groups[key]]), key[0] if self.single else key, npnum(tot)))
        r = SSeries([x for x in out if x[0] is not False], self.col)
        r.levels = list(self.keys)
        return r


class SFrame:
    """rows: [(guard, {name: (guard, value)}, label)]; levels: names of the index columns"""
    __sx__ = True

    def __init__(self, rows, levels=None, base=None):
        self.rows, self.levels, self.base = list(rows), levels, base

    def sx_len(self):
        return INTERP.length(IList.of([(r[0], 0) for r in self.rows]))

    def names(self):
        if self.base is not None:
            return dict(self.base)      # the columns of the frame this is a part of
        r = {}
        for c, row, _ in self.rows:
            for k, (c2, _) in row.items():
                r[k] = OR(r.get(k, False), AND(c, c2))
        return r

    def labels(self):
        return list(self.names())

    def column(self, k):
        n = self.names()
        raise_if(NOT(n.get(k, False)), KeyError(k))
        out = []
        for c, row, l in self.rows:
            p, v = row.get(k, (False, math.nan))
            out.append((c, l, merge(p, v, math.nan)))
        return SSeries(out, k)

    def sx_getitem(self, k):
        if isinstance(k, SSeries) or isinstance(k, (list, IList)) and k and isinstance(list(k)[0], (bool, core.SBool)):
            return SFrame([(AND(c, m), row, l) for (c, row, l), m in zip(self.rows, mask(k, len(self.rows))) if AND(c, m) is not False], self.levels, self.names())
        if isinstance(k, (list, IList)):
            n = self.names()
            for x in k:
                raise_if(NOT(n.get(x, False)), KeyError(x))
            return SFrame([(c, {x: row[x] for x in k if x in row}, l) for c, row, l in self.rows], self.levels, {x: n[x] for x in k})
        return self.column(k)

    def sx_setitem(self, k, v):
        if isinstance(v, SSeries):
            vs = [x for _, _, x in v.es]
        elif isinstance(v, (SArr, list, IList)):
            vs = [x for _, x in entries(v)]
        else:
            vs = [v] * len(self.rows)
        if len(vs) != len(self.rows) or E().g.conj:
            raise Unsupported('column assignment')
        self.rows = [(c, {**row, k: (True, x)}, l) for (c, row, l), x in zip(self.rows, vs)]

    def sx_contains(self, k):
        return self.names().get(k, False)

    def sx_entries(self):
        return [(c, k) for k, c in self.names().items()]

    def row(self, i):
        return SSeries([(c2, k, v) for k, (c2, v) in self.rows[i][1].items()], self.rows[i][2])

    def sx_getattr(self, name):
        if name == 'index':
            return IList.of([(c, l) for c, _, l in self.rows])
        if name == 'columns':
            return IList.of(self.sx_entries())
        if name == 'T':
            if any(r[0] is not True for r in self.rows):
                raise Unsupported('transposing a frame with rows that may be absent')
            return SFrame([(True, {r[2]: r[1].get(n, (False, math.nan)) for r in self.rows}, n) for n in self.labels()])
        if name in ('loc', 'at'):
            return At(self.by_label)
        if name == 'iloc':
            return At(lambda i: IList.of([(r[0], self.row(j)) for j, r in enumerate(self.rows)]).sx_getitem(i))
        if name == 'shape':
            return (self.sx_len(), len(self.labels()))
        if name == 'empty':
            return core.mk_bool(NOT(OR(*[r[0] for r in self.rows])))
        if name == 'values':
            return SArr.make([[v for _, v in r[1].values()] for r in self.rows])
        n = self.names()
        if name in n and name not in dir(SFrame):
            return self.column(name)
        return UNDEF

    def by_label(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, slice):
                return self.sx_getitem(b)
            r = self.by_label(a)
            return r.sx_getitem(b)
        if isinstance(k, (SSeries, list, IList)):
            return self.sx_getitem(k) if isinstance(k, SSeries) else SFrame([r for x in k for r in self.rows if key_eq(x, r[2]) is True], self.levels)
        return pick([(AND(c, key_eq(k, l)), self.row(i)) for i, (c, _, l) in enumerate(self.rows)], KeyError(k))

    def iterrows(self):
        return Iter([(c, (l, self.row(i))) for i, (c, _, l) in enumerate(self.rows)])

    def to_dict(self, orient='dict'):
        if orient == 'records':
            return IList.of([(c, IDict.of(row)) for c, row, _ in self.rows])
        if orient == 'index':
            return IDict.of({l: (c, IDict.of(row)) for c, row, l in self.rows})
        raise Unsupported('orient')

    def copy(self, *a, **k):
        return SFrame(self.rows, self.levels)

    def drop(self, labels=None, axis=0, columns=None, **k):
        if columns is None:
            if axis not in (1, 'columns'):
                raise Unsupported('dropping rows')
            columns = labels
        columns = [columns] if isinstance(columns, str) else list(INTERP.concrete(columns, 'columns'))
        n = self.names()
        for x in columns:
            raise_if(x not in n, KeyError('%r not found in axis' % [x]))
        return SFrame([(c, {a: b for a, b in row.items() if a not in columns}, l) for c, row, l in self.rows], self.levels,
                      {a: b for a, b in n.items() if a not in columns})

    def groupby(self, by=None, as_index=True, sort=True, **k):
        single = isinstance(by, str)
        keys = [by] if single else list(INTERP.concrete(by, 'group keys'))
        if not as_index or not sort:
            raise Unsupported('group options')
        if not keys:
            raise_(ValueError('No group keys passed!'))
        return Grouped(self, keys, single)

    def reset_index(self, drop=False, **k):
        pl = places(self.rows)
        out = []
        for (c, row, l), n in zip(self.rows, pl):
            new = {}
            if not drop:
                lv = self.levels or ['index']
                ls = l if isinstance(l, tuple) else (l,)
                new = {a: (True, b) for a, b in zip(lv, ls)}
            out.append((c, {**new, **row}, n))
        return SFrame(out)

    def set_index(self, k, **kw):
        raise_if(NOT(self.names().get(k, False)), KeyError('None of %r are in the columns' % [k]))
        return SFrame([(c, {a: b for a, b in row.items() if a != k}, row.get(k, (False, math.nan))[1]) for c, row, l in self.rows], [k])


@model(pd.DataFrame)
def m_frame(data=None, index=None, columns=None, **k):
    if isinstance(data, SFrame):
        return data.copy() if columns is None else data.sx_getitem(columns)
    if isinstance(data, SSeries):
        return data.to_frame()
    if not symbolic(data) and not C.deep_sym(data):
        kw = dict(k)
        if index is not None:
            kw['index'] = index
        if columns is not None:
            kw['columns'] = columns
        return INTERP.native(pd.DataFrame, (data,), kw)
    if k:
        raise Unsupported('frame options')
    rows = []
    if isinstance(data, dict):
        d = C.dict_items(data)
        cols = {a: [v for _, v in entries(b)] if not isinstance(b, dict) else [v for _, (_, v) in C.dict_items(b).items()] for a, (_, b) in d.items()}
        if any(c is not True for c, _ in d.values()) or len({len(v) for v in cols.values()}) != 1:
            raise Unsupported('frame of columns that may be absent')
        n = len(next(iter(cols.values())))
        rows = [(True, {a: (True, v[i]) for a, v in cols.items()}) for i in range(n)]
        first = next(iter(d.values()))[1]
        if index is None and isinstance(first, dict):
            index = list(C.dict_items(first))
    else:
        for c, r in entries(data):
            alts = r.alts if type(r) is core.Union else [(True, r)]
            for c2, d in alts:
                if isinstance(d, (list, tuple, IList, SArr)):
                    vs = [v for _, v in entries(d)]
                    cn = list(columns) if columns is not None else list(range(len(vs)))
                    rows.append((AND(c, c2), {a: (True, v) for a, v in zip(cn, vs)}))
                    continue
                if not isinstance(d, dict):
                    raise Unsupported('frame of %s' % type(d).__name__)
                d = d if isinstance(d, IDict) else IDict(d)
                rows.append((AND(c, c2), d._items()))
    labels = list(INTERP.concrete(index, 'index')) if index is not None else places(rows)
    return SFrame([(c, row, l) for (c, row), l in zip(rows, labels)])


# ------------------------------------------------------------------ interpolation of one variable
from scipy.interpolate import interp1d      # noqa: E402


class SInterp:
    """scipy.interpolate.interp1d for the kinds linear, nearest, nearest-up, previous, next"""
    __sx__ = True

    def __init__(self, x, y, kind, err, fill):
        self.x, self.y, self.kind, self.err, self.fill = x, y, kind, err, fill

    def sx_getattr(self, name):
        return UNDEF

    def at(self, t):
        x, y = self.x, self.y
        n = len(x)
        t = lift(t)

        def le(a, b):
            return core.as_bool(core.n_le(lift(a), lift(b)))

        def lt(a, b):
            return core.as_bool(core.n_lt(lift(a), lift(b)))
        if self.kind == 'linear':
            segs = [(le(t, x[i + 1]), y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (t - x[i])) for i in range(n - 1)]
            r = segs[-1][1] if segs else y[0]
            for c, v in reversed(segs[:-1]):
                r = merge(c, v, r)
        else:
            r = y[-1]
            for i in range(n - 2, -1, -1):
                mid = (lift(x[i]) + x[i + 1]) / 2.0
                c = {'nearest': le(t, mid), 'nearest-up': lt(t, mid), 'previous': lt(t, x[i + 1]), 'next': le(t, x[i])}[self.kind]
                r = merge(c, y[i], r)
        below, above = lt(t, x[0]), lt(x[-1], t)
        if self.fill == 'extrapolate':
            return npnum(r)
        if self.err:
            raise_if(OR(below, above), ValueError('A value is outside the interpolation range'))
            return npnum(r)
        return npnum(merge(below, self.fill[0], merge(above, self.fill[1], r)))

    def __call__(self, t):
        if isinstance(t, (list, tuple, IList, np.ndarray)):
            t = SArr.make(t)
        if isinstance(t, SArr):
            return t.map(self.at)
        return core.lifted(self.at, t)


@model(interp1d)
def m_interp1d(x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan, assume_sorted=False):
    xs, ys = [v for v in SArr.make(x).a.flat], [v for v in SArr.make(y).a.flat]
    if len(xs) != len(ys):
        raise_(ValueError('x and y arrays must be equal in length along interpolation axis.'))
    if kind not in ('linear', 'nearest', 'nearest-up', 'previous', 'next'):
        raise Unsupported('interpolation of kind %s' % kind)
    if not xs:
        raise_(ValueError('x and y arrays must have at least 1 entries'))
    for i in range(1, len(xs)):
        j = i
        while j > 0 and E().decide(core.as_bool(core.n_lt(lift(xs[j]), lift(xs[j - 1])))) and not assume_sorted:
            xs[j], xs[j - 1] = xs[j - 1], xs[j]
            ys[j], ys[j - 1] = ys[j - 1], ys[j]
            j -= 1
        if E().feasible(core.as_bool(eq(xs[i], xs[i - 1]))):
            raise Unsupported('interpolation over repeated points')
    ys = [npnum(core.n_mul(lift(v), lift(1.0))) for v in ys]
    if fill_value == 'extrapolate' if isinstance(fill_value, str) else False:
        return SInterp(xs, ys, kind, False, 'extrapolate')
    if isinstance(fill_value, tuple) and len(fill_value) == 2:
        f = tuple(fill_value)
    else:
        f = (fill_value, fill_value)
    nan = isinstance(fill_value, float) and math.isnan(fill_value)
    err = (nan if bounds_error is None else bounds_error) if not nan else (True if bounds_error is None else bounds_error)
    if not nan and bounds_error is None:
        err = True      # scipy: bounds_error is set whenever there is a fill value that does not extrapolate
    return SInterp(xs, ys, kind, err, f)
