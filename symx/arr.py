"""Arrays with symbolic elements (fixed shape)."""
import operator
import numpy as np
import z3
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, mk_bool, merge, raise_, as_bool, truth, lift, is_num, const_of,
                   concretize_int, Unsupported, lift_union)
from .containers import IList, entries, deep_sym, eq


def E():
    return core.ENG


def npify(v):
    t = type(v)
    if t is SNum:
        return v if v.np else SNum(v.e, v.nan, v.pinf, v.ninf, True)
    if t is bool:
        return v
    if t is int:
        return np.int64(v)
    if t is float:
        return np.float64(v)
    if t is Union:
        return core.merge_all([(c, npify(x)) for c, x in v.alts])
    return v


def num_dtype(v):
    return isinstance(v, (SNum, int, float, np.number)) and not isinstance(v, (bool, SBool, np.bool_))


class SArr:
    __sx__ = True
    sx_elementwise = True
    __array_ufunc__ = None

    def __init__(self, a):
        self.a = a                      # numpy object array
        self._g0 = E().g

    # -- construction
    @staticmethod
    def make(x, dtype=None):
        if type(x) is Union:
            return lift_union(x, lambda v: SArr.make(v, dtype))
        if isinstance(x, SArr):
            return x.conv(dtype) if dtype is not None else x.copy()
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = npify(x[i].item() if hasattr(x[i], 'item') and x.dtype.kind in 'fib' else x[i])
            return SArr(out).conv(dtype)

        def rows(v):
            if type(v) is Union:
                v = v.pick()
            if isinstance(v, SArr):
                return [rows(y) for y in v] if v.a.ndim else v.a[()]
            if isinstance(v, np.ndarray):
                return rows(v.tolist())
            if isinstance(v, (list, tuple)) or hasattr(type(v), 'sx_entries') or isinstance(v, (range,)):
                es = entries(v)
                if any(c is not True for c, _ in es):
                    es = [(True, y) for y in IList.of(es)]
                return [rows(y) for _, y in es]
            if isinstance(v, (set, dict)) and not isinstance(v, (list, tuple)):
                return v
            return v
        r = rows(x)

        def shape(v):
            if isinstance(v, list):
                if not v:
                    return (0,)
                s = {shape(y) for y in v}
                if len(s) != 1:
                    raise Unsupported('ragged array')
                return (len(v),) + s.pop()
            return ()
        sh = shape(r)
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            v = r
            for j in i:
                v = v[j]
            out[i] = npify(v)
        # numeric arrays have one dtype: ints become floats next to floats
        flat = [v for v in out.flat]
        if any(num_dtype(v) for v in flat) and all(num_dtype(v) or type(v) in (bool, SBool) for v in flat):
            isint = all((isinstance(v, (int, np.integer)) or (type(v) is SNum and v.is_int)) for v in flat
                        if num_dtype(v))
            if not isint:
                for i in np.ndindex(sh):
                    out[i] = to_float(out[i])
        return SArr(out).conv(dtype)

    def conv(self, dtype):
        if dtype is None:
            return self
        if dtype in (float, np.float64, 'float', np.float32):
            return self.map(to_float)
        if dtype in (bool, np.bool_):
            return self.map(lambda v: mk_bool(truth(v)))
        if dtype in (int, np.int64, 'int'):
            return self.map(lambda v: v if type(v) is not SNum else core.n_floor(v))
        return self

    def copy(self, *a, **k):
        return SArr(self.a.copy())

    def astype(self, dtype, *a, **k):
        return self.copy().conv(dtype)

    def map(self, f):
        out = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(self.a.shape):
            v = self.a[i]
            out[i] = f(v)
        return SArr(out)

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def T(self):
        return SArr(self.a.T)

    @property
    def dtype(self):
        return np.dtype(float)

    def sx_len(self):
        if not self.a.ndim:
            raise_(TypeError('len() of unsized object'))
        return self.a.shape[0]

    __len__ = sx_len

    def sx_entries(self):
        if not self.a.ndim:
            raise_(TypeError('iteration over a 0-d array'))
        return [(True, wrap(self.a[i])) for i in range(self.a.shape[0])]

    def __iter__(self):
        return iter([v for _, v in self.sx_entries()])

    def sx_truth(self):
        if self.a.size == 1:
            return truth(self.a.reshape(-1)[0])
        raise_(ValueError('The truth value of an array with more than one element is ambiguous'))

    def sx_contains(self, k):
        return OR(*[eq(v, k) for v in self.a.flat])

    def sx_concrete(self):
        from .interp import INTERP
        return np.array([INTERP.concrete(v, 'array') for v in self.a.flat]).reshape(self.a.shape)

    def sx_eq(self, o):
        raise_(ValueError('The truth value of an array with more than one element is ambiguous'))

    # -- indexing
    def _index(self, k):
        from .interp import INTERP
        if isinstance(k, SArr):
            fl = list(k.a.flat)
            if fl and all(type(v) in (bool, SBool, np.bool_) for v in fl):
                return 'mask', k
            return 'int', [INTERP.concrete(v, 'index') for v in fl]
        if isinstance(k, IList):
            k = list(k)
            if any(type(v) in (bool, SBool) for v in k):
                return 'mask', SArr.make(k)
            return 'int', [INTERP.concrete(v, 'index') for v in k]
        if isinstance(k, tuple):
            return 'int', tuple(self._index(x)[1] for x in k)
        if isinstance(k, (int, slice, type(None), type(Ellipsis), np.integer)):
            return 'int', (INTERP.concrete(k, 'index'))
        return 'int', INTERP.concrete(k, 'index')

    def sx_getitem(self, k):
        if type(k) is Union:
            return lift_union(k, self.sx_getitem)
        if type(k) is SNum and const_of(k) is None and self.a.ndim == 1:
            return IList(list(self.a)).sx_getitem(k)
        kind, ix = self._index(k)
        if kind == 'mask':
            sel = [E().decide(as_bool(v)) for v in ix.a.flat]
            m = np.array(sel, dtype=bool).reshape(ix.a.shape)
            return wrap(self.a[m])
        try:
            return wrap(self.a[ix])
        except IndexError as ex:
            raise_(ex)

    def __getitem__(self, k):
        return self.sx_getitem(k)

    def sx_setitem(self, k, v):
        c = E().g.rel(self._g0)
        if type(k) is SNum and const_of(k) is None and self.a.ndim == 1:
            n = self.a.shape[0]
            for i in range(n):
                ci = AND(c, OR(k.e == i, k.e + n == i))
                self.a[i] = merge(ci, npify(v), self.a[i])
            return
        kind, ix = self._index(k)
        if kind == 'mask':
            vs = v if not isinstance(v, (SArr, list)) else None
            if vs is None:
                m = np.array([E().decide(as_bool(x)) for x in ix.a.flat], dtype=bool).reshape(ix.a.shape)
                self.a[m] = unwrap(SArr.make(v))
                return
            for i in np.ndindex(self.a.shape):
                self.a[i] = merge(AND(c, as_bool(ix.a[i])), npify(v), self.a[i])
            return
        old = self.a[ix]
        new = unwrap(v) if isinstance(v, SArr) else unwrap(SArr.make(v)) if isinstance(v, (list, tuple, np.ndarray)) else v
        if isinstance(old, np.ndarray):
            b = np.broadcast_to(np.asarray(new, dtype=object) if not isinstance(new, np.ndarray) else new, old.shape)
            out = np.empty(old.shape, dtype=object)
            for i in np.ndindex(old.shape):
                out[i] = merge(c, npify(b[i]), old[i])
            self.a[ix] = out
        else:
            self.a[ix] = merge(c, npify(new), old)

    __setitem__ = sx_setitem

    # -- arithmetic
    def _bin(self, o, f):
        x = self.a
        if isinstance(o, SArr):
            y = o.a
        elif isinstance(o, (list, tuple, np.ndarray)):
            y = SArr.make(o).a
        elif type(o) is Union:
            return lift_union(o, lambda v: self._bin(v, f))
        else:
            y = np.empty((), dtype=object)
            y[()] = npify(o)
        try:
            sh = np.broadcast_shapes(x.shape, y.shape)
        except ValueError as ex:
            raise_(ex)
        x, y = np.broadcast_to(x, sh), np.broadcast_to(y, sh)
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = app2(f, x[i], y[i])
        return wrap0(out)

    def sum(self, axis=None, **k):
        return self.reduce(lambda vs: fold_sum(vs), axis, k)

    def mean(self, axis=None, **k):
        return self.reduce(lambda vs: app2(operator.truediv, fold_sum(vs), np.float64(len(vs))), axis, k)

    def reduce(self, f, axis, k):
        if k.get('keepdims'):
            raise Unsupported('keepdims')
        if axis is None:
            return f(list(self.a.flat))
        out = np.apply_along_axis(lambda v: [None], axis, np.zeros(self.a.shape)) if False else None
        ax = axis if axis >= 0 else axis + self.a.ndim
        moved = np.moveaxis(self.a, ax, -1)
        out = np.empty(moved.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f(list(moved[i]))
        return wrap0(out)

    def min(self, axis=None, **k):
        return self.reduce(lambda vs: fold_min(vs), axis, k)

    def max(self, axis=None, **k):
        return self.reduce(lambda vs: fold_max(vs), axis, k)

    def prod(self, axis=None, **k):
        def f(vs):
            r = np.float64(1)
            for v in vs:
                r = app2(operator.mul, r, v)
            return r
        return self.reduce(f, axis, k)

    def all(self, axis=None, **k):
        return self.reduce(lambda vs: mk_bool(AND(*[truth(v) for v in vs])), axis, k)

    def any(self, axis=None, **k):
        return self.reduce(lambda vs: mk_bool(OR(*[truth(v) for v in vs])), axis, k)

    def var(self, axis=None, **k):
        ddof = k.pop('ddof', 0)
        if core.is_sym(ddof):
            raise Unsupported('ddof')

        def f(vs):
            n = np.float64(len(vs))
            m = app2(operator.truediv, fold_sum(vs), n)
            d = [app2(operator.sub, v, m) for v in vs]
            return app2(operator.truediv, fold_sum([app2(operator.mul, x, x) for x in d]), np.float64(len(vs) - ddof))
        return self.reduce(f, axis, k)

    def std(self, axis=None, **k):
        v = self.var(axis, **k)
        from .models import fsqrt
        return v.map(fsqrt) if isinstance(v, SArr) else fsqrt(v)

    def cumsum(self, axis=None, **k):
        vs = list(self.a.flat)
        out, acc = [], None
        for v in vs:
            acc = v if acc is None else app2(operator.add, acc, v)
            out.append(acc)
        return SArr.make(out)

    def argmax(self, *a, **k):
        vs = list(self.a.flat)
        best, bi = vs[0], 0
        for i, v in enumerate(vs[1:], 1):
            c = as_bool(app2(operator.gt, v, best))
            best, bi = merge(c, v, best), merge(c, i, bi)
        return bi

    def argmin(self, *a, **k):
        vs = list(self.a.flat)
        best, bi = vs[0], 0
        for i, v in enumerate(vs[1:], 1):
            c = as_bool(app2(operator.lt, v, best))
            best, bi = merge(c, v, best), merge(c, i, bi)
        return bi

    def argsort(self, *a, **k):
        from .models import sort_list
        vs = list(enumerate(self.a.flat))
        return SArr.make([i for i, _ in sort_list(vs, lambda p: p[1])])

    def sort(self, *a, **k):
        from .models import sort_list
        c = E().g.rel(self._g0)
        new = sort_list(list(self.a.flat), lambda v: v)
        for i, v in enumerate(new):
            self.a[i] = merge(c, v, self.a[i])

    def flatten(self, *a):
        return SArr(self.a.flatten())

    ravel = flatten

    def reshape(self, *s):
        return SArr(self.a.reshape(*s))

    def transpose(self, *a):
        return SArr(self.a.T)

    def squeeze(self, *a):
        return wrap0(self.a.squeeze())

    def dot(self, o):
        return matmul(self, SArr.make(o))

    def __matmul__(self, o):
        return matmul(self, SArr.make(o))

    def item(self, *a):
        return self.a.reshape(-1)[0]

    def tolist(self):
        def f(a):
            return IList([f(x) if isinstance(x, np.ndarray) else x for x in a])
        return f(self.a) if self.a.ndim else self.a[()]

    def fill(self, v):
        self.sx_setitem(slice(None), v)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = r._bin(lo, lambda a, b: fold_max([a, b]))
        if hi is not None:
            r = r._bin(hi, lambda a, b: fold_min([a, b]))
        return r

    def nonzero(self):
        sel = [i for i, v in enumerate(self.a.flat) if E().decide(truth(v))]
        return (SArr.make(sel),)

    def __neg__(self):
        return self.map(operator.neg)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs)

    def __invert__(self):
        return self.map(lambda v: mk_bool(NOT(truth(v))))

    __hash__ = None

    def __repr__(self):
        return 'SArr(%r)' % (self.a,)

    def __format__(self, spec):
        return '<array>'

    def sx_getattr(self, name):
        return core.UNDEF


def matmul(x, y):
    a, b = x.a, y.a
    if a.ndim == 1 and b.ndim == 1:
        return fold_sum([app2(operator.mul, p, q) for p, q in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        return SArr.make([fold_sum([app2(operator.mul, p, q) for p, q in zip(r, b)]) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return SArr.make([fold_sum([app2(operator.mul, p, q) for p, q in zip(a, b[:, j])]) for j in range(b.shape[1])])
    return SArr.make([[fold_sum([app2(operator.mul, p, q) for p, q in zip(r, b[:, j])]) for j in range(b.shape[1])]
                      for r in a])


def to_float(v):
    t = type(v)
    if t is SNum:
        return SNum(core.zreal(v.e), v.nan, v.pinf, v.ninf, True)
    if t is SBool:
        return to_float(v._num())
    if t is Union:
        return core.merge_all([(c, to_float(x)) for c, x in v.alts])
    if isinstance(v, (int, float, np.number, bool)):
        return np.float64(v)
    return v


def app2(f, a, b):
    if type(a) is Union:
        return lift_union(a, lambda x: app2(f, x, b))
    if type(b) is Union:
        return lift_union(b, lambda x: app2(f, a, x))
    # object elements of interpreted classes do not occur in arithmetic; numbers only
    with np.errstate(all='ignore'):
        r = f(a, b)
    return r


def fold_sum(vs):
    r = None
    for v in vs:
        v = v._num() if type(v) is SBool else int(v) if isinstance(v, (bool, np.bool_)) else v
        r = v if r is None else app2(operator.add, r, v)
    if r is None:
        return np.float64(0)
    if type(r) is bool:
        return int(r)
    return r


def _nan_any(vs):
    return OR(*[lift(v).nan for v in vs])


def fold_min(vs, nanprop=True):
    if not vs:
        raise_(ValueError('zero-size array to reduction operation'))
    r = vs[0]
    for v in vs[1:]:
        c = as_bool(app2(operator.lt, v, r))
        if nanprop:
            c = OR(c, lift(v).nan) if is_num(v) else c
            if is_num(r):
                c = AND(c, NOT(lift(r).nan))
        r = merge(c, v, r)
    return r


def fold_max(vs, nanprop=True):
    if not vs:
        raise_(ValueError('zero-size array to reduction operation'))
    r = vs[0]
    for v in vs[1:]:
        c = as_bool(app2(operator.gt, v, r))
        if nanprop:
            c = OR(c, lift(v).nan) if is_num(v) else c
            if is_num(r):
                c = AND(c, NOT(lift(r).nan))
        r = merge(c, v, r)
    return r


def wrap(x):
    if isinstance(x, np.ndarray):
        return SArr(x)
    return x


def wrap0(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return SArr(x) if isinstance(x, np.ndarray) else x


def unwrap(x):
    return x.a if isinstance(x, SArr) else x


def _and(a, b):
    return mk_bool(AND(truth(a), truth(b)))


def _or(a, b):
    return mk_bool(OR(truth(a), truth(b)))


for _n, _f in dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, pow=operator.pow,
                   floordiv=operator.floordiv, mod=operator.mod, lt=operator.lt, le=operator.le, gt=operator.gt,
                   ge=operator.ge).items():
    def _mk(f):
        def g(self, o):
            return self._bin(o, f)

        def rg(self, o):
            return self._bin(o, lambda a, b: f(b, a))

        def ig(self, o):
            r = self._bin(o, f)
            c = E().g.rel(self._g0)
            if c is True:
                self.a[...] = r.a
            else:
                for i in np.ndindex(self.a.shape):
                    self.a[i] = merge(c, r.a[i], self.a[i])
            return self
        return g, rg, ig
    _a, _b, _c = _mk(_f)
    setattr(SArr, '__%s__' % _n, _a)
    if _n not in ('lt', 'le', 'gt', 'ge'):
        setattr(SArr, '__r%s__' % _n, _b)
        setattr(SArr, '__i%s__' % _n, _c)
SArr.__eq__ = lambda self, o: self._bin(o, lambda a, b: mk_bool(eq(a, b)))
SArr.__ne__ = lambda self, o: self._bin(o, lambda a, b: mk_bool(NOT(eq(a, b))))
SArr.__and__ = SArr.__rand__ = lambda self, o: self._bin(o, _and)
SArr.__or__ = SArr.__ror__ = lambda self, o: self._bin(o, _or)
SNum.__array_ufunc__ = None
SBool.__array_ufunc__ = None
