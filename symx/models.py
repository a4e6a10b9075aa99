"""Symbolic models of builtins, numpy, math, scipy and friends."""
import ast
import builtins
import collections
import copy
import functools
import itertools
import math
import operator
import types
import numpy as np
import z3
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, UNDEF, Dead, Unsupported, mk_bool, merge, merge_all, simp, raise_,
                   raise_if, as_bool, truth, lift, lift_union, resolve, is_num, concretize_int, const_of)
from . import containers as C
from .containers import IList, ISet, IDict, entries, eq, is_, contains, deep_sym, count, SymText
from .interp import INTERP, GenExp, Iter, IFunc, LocalsEnv, Env, has_own, ours_class, SuperObj, DICTGET
from .arr import SArr, npify, app2, fold_sum, fold_min, fold_max, to_float, wrap0

M = INTERP.models


def E():
    return core.ENG


def model(*fs):
    def d(g):
        for f in fs:
            M[f] = g
        return g
    return d


def symbolic(*args):
    return any(deep_sym(a) or isinstance(a, (SArr, IList, ISet, IDict, GenExp, Iter)) or
               hasattr(type(a), 'sx_entries') for a in args)


def native_unless_sym(f):
    """decorator: the model applies only when an argument is symbolic"""
    def d(g):
        def h(*a, **k):
            if not symbolic(*a, *k.values()):
                return INTERP.native(f, a, k)
            return g(*a, **k)
        M[f] = h
        return g
    return d


def unlift(v):
    """python number of a constant"""
    if type(v) is SNum:
        c = const_of(v)
        if c is not None and not v.np:
            return c
    return v


# ------------------------------------------------------------------ builtins
@model(bool)
def m_bool(v=False):
    return mk_bool(truth(v))


@model(len)
def m_len(v):
    return INTERP.length(v)


@model(any)
def m_any(x):
    if isinstance(x, GenExp) and x.done is None:
        hits = INTERP.short(x, truth)
        return mk_bool(OR(*[AND(c, s) for c, _, s in hits]))
    return mk_bool(OR(*[AND(c, truth(v)) for c, v in entries(x)]))


@model(all)
def m_all(x):
    if isinstance(x, GenExp) and x.done is None:
        hits = INTERP.short(x, lambda v: NOT(truth(v)))
        return mk_bool(NOT(OR(*[AND(c, s) for c, _, s in hits])))
    return mk_bool(AND(*[OR(NOT(c), truth(v)) for c, v in entries(x)]))


@model(iter)
def m_iter(x, *a):
    if a:
        raise Unsupported('iter with sentinel')
    own = has_own(x, '__iter__')
    if own:
        return INTERP.call(own, (x,))
    if isinstance(x, Iter):
        return x
    return Iter(entries(x))


@model(next)
def m_next(x, *default):
    if isinstance(x, GenExp) and x.done is None:
        hits = INTERP.short(x, lambda v: True)
        found = OR(*[c for c, _, _ in hits])
        if default:
            return merge_all([(c, v) for c, v, _ in hits] + [(NOT(found), default[0])])
        raise_if(NOT(found), StopIteration())
        return merge_all([(c, v) for c, v, _ in hits])
    if isinstance(x, GenExp):
        raise Unsupported('next() on a partly consumed generator')
    own = has_own(x, '__next__')
    if own:
        return INTERP.call(own, (x,))
    if hasattr(type(x), 'sx_next'):
        return x.sx_next(default)
    return INTERP.native(next, (x,) + default, {})


@model(sum)
def m_sum(x, start=0):
    acc = start
    if isinstance(x, SArr):
        x = list(x)
    for c, v in entries(x):
        if c is True:
            acc = INTERP.binop(ast.Add, acc, v)
        elif is_num(v) and is_num(acc):
            acc = INTERP.binop(ast.Add, acc, merge(c, v, 0))
        else:
            acc = merge(c, INTERP.binop(ast.Add, acc, v), acc)
    return acc


@model(list)
def m_list(x=()):
    return IList(x)


@model(tuple)
def m_tuple(x=()):
    return tuple(IList(x))


@model(set)
def m_set(x=()):
    return ISet(x)


@model(frozenset)
def m_frozenset(x=()):
    r = ISet(x)
    if not r._sym:
        return frozenset(set.__iter__(r))
    return r


@model(dict)
def m_dict(*a, **k):
    return IDict(*a, **k)


M[(type, 'fromkeys')] = lambda t, *a: IDict.fromkeys(*a)
M[dict.fromkeys] = IDict.fromkeys


@model(set.union)
def m_union(a, *rest):
    return ISet(a).union(*rest)


@model(set.intersection)
def m_inter(a, *rest):
    return ISet(a).intersection(*rest)


@model(set.difference)
def m_diff(a, *rest):
    return ISet(a).difference(*rest)


@model(set.issubset)
def m_issub(a, b):
    return ISet(a).issubset(b)


for _t in (set, frozenset):
    for _n in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint',
               'copy'):
        M[(_t, _n)] = (lambda n: lambda s, *a: getattr(ISet(s), n)(*a))(_n)
for _n in ('get',):
    M[(dict, _n)] = lambda d, k, default=None: IDict(d).get(k, default) if C.sym_key(k) else resolve(d.get(k, default))
M[(list, 'index')] = lambda s, v, *a: IList(s).index(v, *a) if symbolic(v) or deep_sym(s) else INTERP.native(
    list(s).index, (v,) + a, {})
M[(list, 'copy')] = lambda s: IList(s)
M[(dict, 'copy')] = lambda s: IDict(s)


@model(enumerate)
def m_enumerate(x, start=0):
    es = entries(x)
    out = []
    for i, (c, v) in enumerate(es):
        n = count(es[:i])
        k = const_of(n)
        idx = k if k is not None else n
        out.append((c, (INTERP.binop(ast.Add, idx, start) if start != 0 else idx, v)))
    return Iter(out)


@model(zip)
def m_zip(*xs, strict=False):
    if any(isinstance(x, itertools.count) for x in xs):
        raise Unsupported('zip with an infinite iterator')
    ess = [entries(x) for x in xs]
    if any(c is not True for es in ess for c, _ in es):
        lens = {len(es) for es in ess}
        same = len(lens) == 1 and all(
            all((a is b) or (core.is_sym(a) and core.is_sym(b) and a.eq(b)) for a, b in zip([c for c, _ in ess[0]],
                                                                                             [c for c, _ in es]))
            for es in ess)
        if same:
            return Iter([(ess[0][i][0], tuple(es[i][1] for es in ess)) for i in range(len(ess[0]))])
        ess = [[(True, v) for v in IList.of(es)] for es in ess]
    return Iter([(True, tuple(v for _, v in t)) for t in zip(*ess)])


@model(range)
def m_range(*a):
    sy = [x for x in a if type(x) is SNum and const_of(x) is None]
    if sy and len(a) <= 2 and all(not isinstance(x, SNum) or (x.plain and x.e.sort() == z3.IntSort()) for x in a):
        lo, hi = (lift(0), lift(a[0])) if len(a) == 1 else (lift(a[0]), lift(a[1]))
        first = const_of(lo) if const_of(lo) is not None else 0
        ge0 = const_of(lo) is not None or not core.ENG.feasible(lo.e < 0)
        for top in range(int(first), int(first) + 9):
            if not core.ENG.feasible(hi.e > top):
                break
        else:
            ge0 = False
        if ge0:
            return IList.of([(AND(core.cmp_(lo.e <= i), core.cmp_(hi.e > i)), i) for i in range(int(first), top)])
    return range(*[INTERP.concrete(x, 'range') for x in a])


@model(reversed)
def m_reversed(x):
    own = has_own(x, '__reversed__')
    if own:
        return INTERP.call(own, (x,))
    return Iter(entries(x)[::-1])


@model(map)
def m_map(f, *xs):
    if len(xs) == 1:
        es = entries(xs[0])
    else:
        es = [(c, v) for c, v in m_zip(*xs).sx_entries()]
    out = []
    for c, v in es:
        args = v if len(xs) > 1 else (v,)
        out.append((c, guarded(c, lambda: INTERP.call(f, args))))
    return Iter([(c, v) for c, v in out if v is not NOVAL])


NOVAL = object()


def guarded(c, fn):
    """fn() evaluated where c holds (NOVAL when nothing survives)"""
    eng = E()
    c = simp(eng.g, c)
    if c is True:
        return fn()
    if c is False or not eng.feasible(c):
        return NOVAL
    g0, m = eng.g, len(eng.exits)
    ok, v = eng.under(c, fn)
    eng.rejoin(g0, m)
    return v if ok else NOVAL


@model(filter)
def m_filter(f, x):
    out = []
    for c, v in entries(x):
        t = truth(v) if f is None else guarded(c, lambda: truth(INTERP.call(f, (v,))))
        if t is NOVAL:
            continue
        out.append((AND(c, t), v))
    return Iter([x for x in out if x[0] is not False])


@model(itertools.filterfalse)
def m_filterfalse(f, x):
    out = []
    for c, v in entries(x):
        t = truth(v) if f is None else guarded(c, lambda: truth(INTERP.call(f, (v,))))
        if t is not NOVAL:
            out.append((AND(c, NOT(t)), v))
    return Iter([x for x in out if x[0] is not False])


def lt(a, b):
    return as_bool(INTERP.compare(ast.Lt(), a, b))


def sort_list(vs, key, reverse=False):
    """stable sorting network over definite entries; merges instead of forking"""
    ks = [(key(v), v) for v in vs]
    if not any(deep_sym(k) for k, _ in ks):
        try:
            return [v for _, v in sorted(ks, key=lambda p: p[0], reverse=reverse)]
        except TypeError as ex:
            raise_(ex)
    n = len(ks)
    if n > 8:
        raise Unsupported('sorting %d symbolic keys' % n)
    for i in range(n):
        for j in range(n - 1 - i):
            (ka, va), (kb, vb) = ks[j], ks[j + 1]
            c = lt(ka, kb) if reverse else lt(kb, ka)
            if c is False:
                continue
            ks[j] = (merge(c, kb, ka), merge(c, vb, va))
            ks[j + 1] = (merge(c, ka, kb), merge(c, va, vb))
    return [v for _, v in ks]


def sort_entries(es, key=None, reverse=False):
    reverse = INTERP.concrete(reverse, 'reverse')
    kf = (lambda v: INTERP.call(key, (v,))) if key is not None else (lambda v: v)
    ks = []
    for c, v in es:
        k = guarded(c, lambda: kf(v))
        if k is not NOVAL:
            ks.append((c, v, k))
    if all(c is True for c, _, _ in ks):
        return [(True, v) for v in sort_list([(v, k) for _, v, k in ks], lambda p: p[1], reverse)] if False else \
            [(True, v) for v, _ in sort_list([(v, k) for _, v, k in ks], lambda p: p[1], reverse)]
    if not any(deep_sym(k) for _, _, k in ks):
        try:
            return [(c, v) for c, v, k in sorted(ks, key=lambda p: p[2], reverse=reverse)]
        except TypeError as ex:
            raise_(ex)
    vs = [(v, k) for c, v, k in ks if E().decide(c)]
    return [(True, v) for v, _ in sort_list(vs, lambda p: p[1], reverse)]


@model(sorted)
def m_sorted(x, key=None, reverse=False):
    return IList.of(sort_entries(entries(x), key, reverse))


def minmax(name, less):
    def f(*args, key=None, default=UNDEF):
        es = entries(args[0]) if len(args) == 1 else [(True, v) for v in args]
        kf = (lambda v: INTERP.call(key, (v,))) if key is not None else (lambda v: v)
        have, bv, bk = False, None, None
        for c, v in es:
            k = guarded(c, lambda: kf(v))
            if k is NOVAL:
                continue
            if have is False:
                have, bv, bk = c, v, k
                continue
            better = guarded(AND(c, have), lambda: as_bool(less(k, bk)))
            if better is NOVAL:
                better = False
            take = AND(c, OR(NOT(have), better))
            bv, bk = merge(take, v, bv), merge(take, k, bk)
            have = OR(have, c)
        if default is not UNDEF:
            return default if have is False else merge(have, bv, default)
        raise_if(NOT(have), ValueError('%s() iterable argument is empty' % name))
        return bv
    return f


M[min] = minmax('min', lambda k, b: INTERP.compare(ast.Lt(), k, b))
M[max] = minmax('max', lambda k, b: INTERP.compare(ast.Gt(), k, b))


@model(isinstance)
def m_isinstance(v, t):
    if type(v) is Union:
        return lift_union(v, lambda x: m_isinstance(x, t))
    if isinstance(v, SArr):
        return np.ndarray in (t if isinstance(t, tuple) else (t,)) or \
            any(issubclass(SArr, x) for x in (t if isinstance(t, tuple) else (t,)) if isinstance(x, type))
    if type(v) is SNum or type(v) is SBool:
        ts = bool if type(v) is SBool else (np.int64 if v.np else int) if v.is_int else np.float64 if v.np else float
        try:
            return issubclass(ts, t)
        except TypeError as ex:
            raise_(ex)
    if isinstance(v, IFunc):
        ts = t if isinstance(t, tuple) else (t,)
        return any(x in (types.FunctionType, collections.abc.Callable) for x in ts)
    try:
        return isinstance(v, t)
    except TypeError as ex:
        raise_(ex)


@model(type)
def m_type(*a):
    if len(a) != 1:
        return INTERP.native(type, a, {})
    v = a[0]
    if type(v) is Union:
        return lift_union(v, m_type)
    if isinstance(v, IList):
        return list
    if isinstance(v, ISet):
        return set
    if isinstance(v, IDict):
        return getattr(type(v), 'sx_type', dict)
    if type(v) is SNum:
        return int if v.is_int else float
    if type(v) is SBool:
        return bool
    if isinstance(v, SArr):
        return np.ndarray
    return getattr(type(v), 'sx_type', type(v))


@model(callable)
def m_callable(v):
    if type(v) is Union:
        return lift_union(v, m_callable)
    if type(v) in (SNum, SBool) or isinstance(v, SArr):
        return False
    return callable(v)


@model(hasattr)
def m_hasattr(o, n):
    if type(o) is Union:
        return lift_union(o, lambda x: m_hasattr(x, n))
    return INTERP.try_call(lambda: (INTERP.getattr(o, n), True)[1], (AttributeError,), lambda: False)


@model(getattr)
def m_getattr(o, n, *d):
    n = INTERP.concrete(n, 'getattr')
    if not d:
        return INTERP.getattr(o, n)
    return INTERP.try_call(lambda: INTERP.getattr(o, n), (AttributeError,), lambda: d[0])


@model(setattr)
def m_setattr(o, n, v):
    INTERP.setattr(o, INTERP.concrete(n, 'setattr'), v)


@model(id)
def m_id(o):
    return id(o)


@model(hash)
def m_hash(o):
    return INTERP.native(hash, (o,), {})


@model(print)
def m_print(*a, **k):
    return None


@model(float)
def m_float(v=0.0):
    if type(v) is Union:
        return lift_union(v, m_float)
    if type(v) is SNum:
        return SNum(core.zreal(v.e), v.nan, v.pinf, v.ninf)
    if type(v) is SBool:
        return m_float(v._num())
    if isinstance(v, SArr):
        return m_float(v.item())
    own = has_own(v, '__float__')
    if own:
        return INTERP.call(own, (v,))
    return INTERP.native(float, (v,), {})


@model(int)
def m_int(v=0, *a):
    if type(v) is Union:
        return lift_union(v, m_int)
    if type(v) is SBool:
        return v._num()
    if type(v) is SNum:
        if v.is_int:
            return v
        raise_if(v.nan, ValueError('cannot convert float NaN to integer'))
        raise_if(OR(v.pinf, v.ninf), OverflowError('cannot convert float infinity to integer'))
        f = z3.ToInt(v.e)
        return SNum(z3.If(v.e >= 0, f, -z3.ToInt(-v.e)))
    return INTERP.native(int, (v,) + a, {})


@model(abs)
def m_abs(v):
    if type(v) is Union:
        return lift_union(v, m_abs)
    if isinstance(v, SArr):
        return abs(v)
    return abs(v)


@model(round)
def m_round(v, *n):
    if type(v) is Union:
        return lift_union(v, lambda x: m_round(x, *n))
    if type(v) is SNum:
        if n and n[0] is not None and n[0] != 0:
            raise Unsupported('round to digits')
        raise_if(v.nan, ValueError('cannot convert float NaN to integer'))
        return core.n_round(v)
    return INTERP.native(round, (v,) + n, {})


@model(pow)
def m_pow(a, b, *m):
    if m:
        return INTERP.native(pow, (a, b) + m, {})
    return INTERP.binop(ast.Pow, a, b)


@model(divmod)
def m_divmod(a, b):
    return INTERP.binop(ast.FloorDiv, a, b), INTERP.binop(ast.Mod, a, b)


@model(str)
def m_str(v='', *a):
    if type(v) is Union:
        return lift_union(v, m_str)
    if a:
        return INTERP.native(str, (v,) + a, {})
    if type(v) in (SNum, SBool) or deep_sym(v):
        return SymText(lambda: str(INTERP.concrete(v, 'str')))
    return INTERP.to_str(v)


@model(repr)
def m_repr(v):
    if type(v) is Union:
        return lift_union(v, m_repr)
    if type(v) in (SNum, SBool) or deep_sym(v):
        return SymText(lambda: repr(INTERP.concrete(v, 'repr')))
    return INTERP.to_repr(v)


@model((str, 'format'))
def m_sformat(s, *a, **k):
    def f(v):
        if has_own(v, '__str__') or has_own(v, '__repr__'):
            return INTERP.to_str(v)
        return v
    vs = list(a) + list(k.values())
    if any(type(v) is Union or deep_sym(v) for v in vs):
        return SymText(lambda: m_sformat(s, *[INTERP.concrete(v, 'format') for v in a],
                                         **{n: INTERP.concrete(v, 'format') for n, v in k.items()}))
    try:
        return s.format(*[f(x) for x in a], **{n: f(x) for n, x in k.items()})
    except Exception as ex:
        raise_(ex)


M[format] = lambda v, *a: SymText(lambda: format(INTERP.concrete(v, 'format'), *a)) if deep_sym(v) else \
    INTERP.native(format, (v,) + a, {})


@model((str, 'join'))
def m_join(s, x):
    x = IList(x)
    if deep_sym(x):
        return SymText(lambda: s.join(INTERP.concrete(x, 'join')))
    return s.join(list(x))


@model(vars)
def m_vars(o):
    return IDict(DICTGET(o))


@model(eval)
def m_eval(src, glob=None, loc=None):
    if type(src) is Union:
        return lift_union(src, lambda x: m_eval(x, glob, loc))
    if isinstance(src, types.CodeType):
        raise Unsupported('eval of a code object')
    try:
        tree = ast.parse(src.strip() if isinstance(src, str) else src, '<eval>', 'eval')
    except SyntaxError as ex:
        raise_(ex)
    g = glob if glob is not None else {}
    if type(g) is Union:
        g = g.pick()
    if isinstance(g, IDict) and g._sym:
        g.concretise()
    env = LocalsEnv(g, loc)
    return INTERP.ev(tree.body, env)


@model(compile)
def m_compile(src, fn, mode, *a, **k):
    if mode == 'eval' and isinstance(src, str):
        return src
    return INTERP.native(compile, (src, fn, mode) + a, k)


# ------------------------------------------------------------------ collections, itertools, functools, copy
class IDefaultDict(IDict):
    sx_type = collections.defaultdict

    def __init__(self, factory=None, *a, **k):
        IDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise_(KeyError(k))
        v = INTERP.call(self.default_factory)
        self[k] = v
        return v

    def copy(self):
        r = IDefaultDict(self.default_factory)
        r._set(self._items())
        return r


@model(collections.defaultdict)
def m_defaultdict(f=None, *a, **k):
    return IDefaultDict(f, *a, **k)


M[collections.OrderedDict] = m_dict


@model(collections.deque)
def m_deque(x=(), maxlen=None):
    if maxlen is not None:
        raise Unsupported('deque with maxlen')
    return IDeque(x)


class IDeque(IList):
    def popleft(self):
        return self.pop(0)

    def appendleft(self, v):
        self.insert(0, v)


@model(itertools.chain)
def m_chain(*xs):
    return Iter([e for x in xs for e in entries(x)])


M[itertools.chain.from_iterable] = lambda xs: Iter([(AND(c, c2), v) for c, x in entries(xs) for c2, v in entries(x)])


def definite(x):
    es = entries(x)
    return [v for _, v in es] if all(c is True for c, _ in es) else list(IList.of(es))


@model(itertools.product)
def m_product(*xs, repeat=1):
    ess = [entries(x) for x in xs] * repeat
    out = [(True, ())]
    for es in ess:
        out = [(AND(c, c2), t + (v,)) for c, t in out for c2, v in es]
    return Iter([x for x in out if x[0] is not False])


@model(itertools.combinations)
def m_combinations(x, r):
    es = entries(x)
    return Iter([e for e in ((AND(*[c for c, _ in t]), tuple(v for _, v in t)) for t in itertools.combinations(es, r))
                 if e[0] is not False])


@model(itertools.permutations)
def m_permutations(x, r=None):
    es = entries(x)
    if r is None and any(c is not True for c, _ in es):
        es = [(True, v) for v in IList.of(es)]
    return Iter([(AND(*[c for c, _ in t]), tuple(v for _, v in t)) for t in itertools.permutations(es, r)])


@model(itertools.islice)
def m_islice(x, *a):
    return Iter([(True, v) for v in itertools.islice(definite(x), *[INTERP.concrete(v, 'islice') for v in a])])


@model(itertools.accumulate)
def m_accumulate(x, f=None, *, initial=None):
    vs = definite(x)
    out, acc = [], initial
    if initial is not None:
        out.append(acc)
    for v in vs:
        acc = v if acc is None and not out else (INTERP.binop(ast.Add, acc, v) if f is None else INTERP.call(f, (acc, v)))
        out.append(acc)
    return Iter([(True, v) for v in out])


@model(itertools.repeat)
def m_repeat(v, n=None):
    if n is None:
        raise Unsupported('infinite repeat')
    return Iter([(True, v)] * INTERP.concrete(n, 'repeat'))


@model(itertools.starmap)
def m_starmap(f, x):
    return Iter([(c, v) for c, v in ((c, guarded(c, lambda: INTERP.call(f, tuple(definite(t))))) for c, t in entries(x))
                 if v is not NOVAL])


@model(functools.reduce)
def m_reduce(f, x, *init):
    acc = init[0] if init else UNDEF
    for c, v in entries(x):
        if acc is UNDEF:
            if c is not True and not E().decide(c):
                continue
            acc = v
            continue
        r = guarded(c, lambda: INTERP.call(f, (acc, v)))
        if r is not NOVAL:
            acc = merge(c, r, acc)
    if acc is UNDEF:
        raise_(TypeError('reduce() of empty iterable with no initial value'))
    return acc


M[(functools.partial, '__call__')] = lambda p, *a, **k: INTERP.call(p.func, p.args + a, {**p.keywords, **k})
M[functools.partial] = lambda f, *a, **k: Partial(f, a, k)


class Partial:
    __sx__ = True

    def __init__(self, f, a, k):
        self.func, self.args, self.keywords = f, a, k

    def __call__(self, *a, **k):
        return INTERP.call(self.func, self.args + a, {**self.keywords, **k})


for _f in (operator.add, operator.sub, operator.mul, operator.truediv, operator.pow):
    M[_f] = (lambda op: lambda a, b: INTERP.binop(op, a, b))(
        {operator.add: ast.Add, operator.sub: ast.Sub, operator.mul: ast.Mult, operator.truediv: ast.Div,
         operator.pow: ast.Pow}[_f])
for _f, _o in ((operator.lt, ast.Lt), (operator.le, ast.LtE), (operator.gt, ast.Gt), (operator.ge, ast.GtE),
               (operator.eq, ast.Eq), (operator.ne, ast.NotEq)):
    M[_f] = (lambda op: lambda a, b: INTERP.compare(op(), a, b))(_o)
M[operator.contains] = lambda a, b: mk_bool(contains(a, b))
M[operator.getitem] = lambda a, b: INTERP.getitem(a, b)
M[operator.or_] = lambda a, b: INTERP.binop(ast.BitOr, a, b)
M[operator.and_] = lambda a, b: INTERP.binop(ast.BitAnd, a, b)
M[operator.not_] = lambda a: mk_bool(NOT(truth(a)))


class IGetter:
    __sx__ = True

    def __init__(self, names, attr):
        self.names, self.attr = names, attr

    def __call__(self, o):
        if self.attr:
            def g(n):
                v = o
                for p in n.split('.'):
                    v = INTERP.getattr(v, p)
                return v
            r = [g(n) for n in self.names]
        else:
            r = [INTERP.getitem(o, n) for n in self.names]
        return r[0] if len(r) == 1 else tuple(r)


M[operator.itemgetter] = lambda *a: IGetter(a, False)
M[operator.attrgetter] = lambda *a: IGetter(a, True)


def copy_value(v, deep, memo):
    t = type(v)
    if t is Union:
        return lift_union(v, lambda x: copy_value(x, deep, memo))
    if t in (SNum, SBool, int, float, str, bool, type(None), tuple) and not (deep and t is tuple):
        return v
    if id(v) in memo:
        return memo[id(v)][0]

    def rec(x):
        return copy_value(x, deep, memo) if deep else x
    own = has_own(v, '__deepcopy__' if deep else '__copy__')
    if own:
        return INTERP.call(own, (v, IDict()) if deep else (v,))
    if t is tuple:
        return tuple(rec(x) for x in v)
    if isinstance(v, list):
        r = IList() if t in (list, IList) else type(v)()
        memo[id(v)] = (r, v)
        r._set([(c, rec(x)) for c, x in entries(v)])
        return r
    if isinstance(v, set):
        return ISet.of(C.set_items(v))
    if isinstance(v, dict):
        r = IDict()
        memo[id(v)] = (r, v)
        r._set({k: (c, rec(x)) for k, (c, x) in C.dict_items(v).items()})
        return r
    if isinstance(v, SArr):
        return v.copy()
    if hasattr(t, 'sx_copy'):
        return v.sx_copy(deep)
    if ours_class(t) and not issubclass(t, BaseException):
        d = DICTGET(v)
        if d is not None:
            obj = object.__new__(t)
            E().objg[id(obj)] = (E().g, obj)
            memo[id(v)] = (obj, v)
            nd = DICTGET(obj)
            for k, x in d.items():
                nd[k] = rec(x)
            return obj
    return INTERP.native(copy.deepcopy if deep else copy.copy, (v,), {})


M[copy.copy] = lambda v: copy_value(v, False, {})
M[copy.deepcopy] = lambda v, memo=None: copy_value(v, True, {})


# ------------------------------------------------------------------ math / numpy scalars
def real(v):
    v = npify(v)
    return v


def f1(fn):
    """elementwise application of a function of SNum"""
    def g(x, *a, **k):
        if type(x) is Union:
            return lift_union(x, lambda v: g(v, *a, **k))
        if isinstance(x, (list, tuple, np.ndarray, Iter)) or hasattr(type(x), 'sx_setlike'):
            x = SArr.make(x)
        if isinstance(x, SArr):
            return x.map(g)
        if is_num(x):
            r = fn(lift(x))
            return r
        raise_(TypeError('ufunc not supported for the input types'))
    return g


def npnum(r):
    return SNum(r.e, r.nan, r.pinf, r.ninf, True) if type(r) is SNum else r


fsqrt = f1(core.n_sqrt)
UF = {}


def uf(name, axioms=None):
    F = z3.Function(name, core._R, core._R)

    def g(a):
        t = z3.simplify(core.zreal(a.e))
        r = F(t)
        key = (name, t.get_id())
        if key not in E().fn_terms.setdefault('UF', {}):
            E().fn_terms['UF'][key] = (t, r)
            if axioms:
                E().axiom(axioms(t, r))
        if not a.plain and E().feasible(OR(a.pinf, a.ninf)):
            raise Unsupported('%s of an infinite number' % name)
        return SNum(r, a.nan, False, False, True)
    return g


def np1(f, fn):
    g = f1(fn)

    def h(x, *a, **k):
        if k.get('out') is not None or k.get('where') is not None:
            raise Unsupported('out/where arguments')
        if not symbolic(x):
            return INTERP.native(f, (x,) + a, k)
        if type(x) is SArr and isinstance(f, np.ufunc) and all(issubclass(type(v), (int, float, np.number)) for v in x.a.flat):
            return SArr(f(x.a.astype(float)).astype(object)) if x.a.shape else np.float64(f(float(x.a.item())))
        return g(x)
    M[f] = h
    return h


def is_flag(name):
    def fn(a):
        if name == 'isnan':
            return mk_bool(a.nan)
        if name == 'isinf':
            return mk_bool(OR(a.pinf, a.ninf))
        if name == 'isposinf':
            return mk_bool(a.pinf)
        if name == 'isneginf':
            return mk_bool(a.ninf)
        return mk_bool(a.finite)
    return fn


def flagf(f, name):
    np1(f, is_flag(name))


for _n in ('isnan', 'isinf', 'isfinite'):
    flagf(getattr(np, _n), _n)
    flagf(getattr(math, _n), _n)
flagf(np.isposinf, 'isposinf')
flagf(np.isneginf, 'isneginf')

np1(np.exp, core.n_exp)
np1(np.log, core.n_log)
np1(np.sqrt, core.n_sqrt)
np1(np.abs, lambda a: npnum(core.n_abs(a)))
for _f in (np.round, np.around, np.rint):
    def _rnd(f):
        one = f1(lambda a: npnum(a if a.is_int else SNum(core.zreal(core.n_round(a).e), a.nan, a.pinf, a.ninf)))

        def h(x, *a, **k):
            if not symbolic(x):
                return INTERP.native(f, (x,) + a, k)
            if a not in ((), (0,)) or k:
                raise Unsupported('rounding to decimals')
            return one(x)
        return h
    M[_f] = _rnd(_f)
np1(np.fabs, lambda a: npnum(core.n_abs(a)))
np1(math.fabs, core.n_abs)
np1(np.square, lambda a: npnum(core.n_mul(a, a)))
np1(np.negative, lambda a: npnum(core.n_neg(a)))
np1(np.floor, lambda a: npnum(SNum(core.zreal(core.n_floor(a).e), a.nan, a.pinf, a.ninf)))
np1(np.ceil, lambda a: npnum(SNum(-core.zreal(core.n_floor(core.n_neg(a)).e), a.nan, a.pinf, a.ninf)))
np1(np.log1p, lambda a: core.n_log(core.n_add(a, lift(1.0))))
np1(math.log1p, lambda a: core.n_log(core.n_add(a, lift(1.0))))
np1(np.expm1, lambda a: core.n_add(core.n_exp(a), lift(-1.0)))
np1(math.expm1, lambda a: core.n_add(core.n_exp(a), lift(-1.0)))
np1(math.floor, lambda a: core.n_floor(a))
np1(math.ceil, lambda a: core.n_neg(core.n_floor(core.n_neg(a))))
np1(math.trunc, m_int)


def m_sign(a):
    p, n, z = core.sgn(a)
    return SNum(z3.If(core.zb(p), z3.RealVal(1), z3.If(core.zb(n), z3.RealVal(-1), z3.RealVal(0))), a.nan, np=True)


np1(np.sign, m_sign)


def m_mathexp(a):
    return core.n_exp(a)


np1(math.exp, m_mathexp)


def m_mathsqrt(a):
    p, n, z = core.sgn(a)
    raise_if(n, ValueError('math domain error'))
    return core.n_sqrt(a)


np1(math.sqrt, m_mathsqrt)


def m_mathlog(x, base=None):
    if not symbolic(x, base):
        return INTERP.native(math.log, (x,) + ((base,) if base is not None else ()), {})
    if base is not None:
        return INTERP.binop(ast.Div, m_mathlog(x), m_mathlog(base))
    if type(x) is Union:
        return lift_union(x, m_mathlog)
    a = lift(x)
    p, n, z = core.sgn(a)
    raise_if(OR(n, z), ValueError('math domain error'))
    return core.n_log(a)


M[math.log] = m_mathlog
for _n in ('sin', 'cos', 'tan', 'arctan', 'tanh'):
    np1(getattr(np, _n), uf(_n))
np1(math.sin, uf('sin'))
np1(math.cos, uf('cos'))
np1(math.tan, uf('tan'))
np1(math.erf, uf('erf'))
np1(math.lgamma, uf('lgamma'))


def pow_np(a, b):
    if not symbolic(a, b):
        return INTERP.native(np.power, (a, b), {})
    if isinstance(a, (list, tuple)):
        a = SArr.make(a)
    if isinstance(a, SArr):
        return a._bin(b, operator.pow)
    if isinstance(b, SArr):
        return b._bin(a, lambda x, y: core.n_pow(lift(y), lift(x)))
    return core.lifted(lambda x, y: npnum(core.n_pow(lift(npify(x)), lift(y))), a, b)


M[np.power] = pow_np
M[np.float_power] = pow_np


def pow_math(a, b):
    if not symbolic(a, b):
        return INTERP.native(math.pow, (a, b), {})

    def f(x, y):
        r = core.n_pow(lift(x), lift(y))
        return SNum(core.zreal(r.e), r.nan, r.pinf, r.ninf)
    return core.lifted(f, a, b)


M[math.pow] = pow_math


def np2(f, op):
    def g(a, b, **k):
        if not symbolic(a, b):
            return INTERP.native(f, (a, b), k)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, (list, tuple, np.ndarray)):
                x = SArr.make(x)
            if isinstance(x, SArr):
                return x._bin(y, (lambda p, q: op(q, p)) if sw else op)
        return core.lifted(lambda x, y: op(npify(x), npify(y)), a, b)
    M[f] = g


np2(np.add, operator.add)
np2(np.subtract, operator.sub)
np2(np.multiply, operator.mul)
np2(np.divide, operator.truediv)
np2(np.maximum, lambda a, b: fold_max([a, b]))
np2(np.minimum, lambda a, b: fold_min([a, b]))
np2(np.fmax, lambda a, b: fold_max([a, b]))
np2(np.fmin, lambda a, b: fold_min([a, b]))
np2(np.hypot, lambda a, b: fsqrt(app2(operator.add, app2(operator.mul, a, a), app2(operator.mul, b, b))))
np2(np.less, operator.lt)
np2(np.greater, operator.gt)
np2(np.less_equal, operator.le)
np2(np.greater_equal, operator.ge)
np2(np.equal, lambda a, b: mk_bool(eq(a, b)))
np2(np.not_equal, lambda a, b: mk_bool(NOT(eq(a, b))))
np2(np.logical_and, lambda a, b: mk_bool(AND(truth(a), truth(b))))
np2(np.logical_or, lambda a, b: mk_bool(OR(truth(a), truth(b))))
np1(np.logical_not, lambda a: mk_bool(NOT(truth(a))))
M[np.logical_not] = lambda x: (SArr.make(x).map(lambda v: mk_bool(NOT(truth(v)))) if isinstance(x, (SArr, list))
                               else mk_bool(NOT(truth(x))))


def m_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not symbolic(a, b):
        return INTERP.native(np.isclose, (a, b), dict(rtol=rtol, atol=atol))
    return abs(a - b) <= atol + rtol * abs(b)


M[np.isclose] = m_isclose


# ------------------------------------------------------------------ numpy arrays
def arrof(x):
    if type(x) is Union:
        x = x.pick()
    if isinstance(x, (GenExp, Iter)):
        raise Unsupported('array of a generator')
    return SArr.make(x)


M[np.array] = lambda x, dtype=None, **k: SArr.make(x, dtype) if not isinstance(x, dict) else INTERP.native(np.array, (x,), k)
M[np.asarray] = lambda x, dtype=None, **k: x if isinstance(x, SArr) and dtype is None else SArr.make(x, dtype)
M[np.copy] = lambda x: SArr.make(x)


def shp(n):
    return INTERP.concrete(n, 'shape')


M[np.zeros] = lambda n, dtype=None, **k: SArr.make(np.zeros(shp(n), **({'dtype': dtype} if dtype else {})))
M[np.ones] = lambda n, dtype=None, **k: SArr.make(np.ones(shp(n), **({'dtype': dtype} if dtype else {})))
M[np.empty] = lambda n, *a, **k: SArr.make(np.zeros(shp(n)))
M[np.zeros_like] = lambda x, **k: SArr.make(np.zeros(arrof(x).shape))
M[np.ones_like] = lambda x, **k: SArr.make(np.ones(arrof(x).shape))


@model(np.full)
def m_full(n, v, *a, **k):
    out = np.empty(shp(n), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = npify(v)
    return SArr(out)


M[np.arange] = lambda *a: SArr.make(np.arange(*[INTERP.concrete(x, 'arange') for x in a]))
M[np.linspace] = lambda a, b, n=50, **k: (SArr.make(np.linspace(a, b, n)) if not symbolic(a, b) else
                                          SArr.make([a + (b - a) * i / (n - 1) for i in range(n)]))


def red(f, name, listok=True):
    def g(x, axis=None, **k):
        if isinstance(x, SArr) or symbolic(x):
            if isinstance(x, (GenExp, Iter)):
                x = IList(x)
            es = None
            if type(x) is Union:
                return lift_union(x, lambda v: g(v, axis, **k))
            if isinstance(x, (IList, ISet)) and x._sym and name in ('sum', 'any', 'all', 'max', 'min'):
                es = entries(x)
                if name == 'sum':
                    r = m_sum(x, np.float64(0))
                    return npify(r)
                if name == 'any':
                    return m_any(x)
                if name == 'all':
                    return m_all(x)
            if is_num(x) and name in ('sum', 'mean', 'max', 'min', 'prod'):
                return npify(x)
            return getattr(SArr.make(x), name)(axis=axis, **{a: b for a, b in k.items() if a in ('ddof', 'keepdims')})
        return INTERP.native(f, (x,), {**k, **({'axis': axis} if axis is not None else {})})
    M[f] = g


for _f, _n in ((np.sum, 'sum'), (np.mean, 'mean'), (np.min, 'min'), (np.max, 'max'), (np.amin, 'min'), (np.amax, 'max'),
               (np.prod, 'prod'), (np.any, 'any'), (np.all, 'all'), (np.var, 'var'), (np.std, 'std'),
               (np.argmax, 'argmax'), (np.argmin, 'argmin'), (np.cumsum, 'cumsum'), (np.argsort, 'argsort')):
    red(_f, _n)
M[np.sort] = lambda x, *a, **k: SArr.make(sort_list(list(SArr.make(x).a.flat), lambda v: v))
M[np.dot] = lambda a, b: SArr.make(a).dot(b)


def m_nansum(x, **k):
    x = SArr.make(x)
    return x.map(lambda v: merge(lift(v).nan, np.float64(0), v) if is_num(v) else v).sum(**k)


M[np.nansum] = m_nansum


def m_ptp(x):
    x = SArr.make(x)
    return x.max() - x.min()


M[np.ptp] = m_ptp
M[np.concatenate] = lambda xs, *a, **k: SArr(np.concatenate([SArr.make(x).a for x in definite(xs)], *a, **k))
M[np.vstack] = lambda xs: SArr(np.vstack([SArr.make(x).a for x in definite(xs)]))
M[np.stack] = lambda xs, axis=0: SArr(np.stack([SArr.make(x).a for x in definite(xs)], axis))
M[np.append] = lambda a, b: SArr(np.append(SArr.make(a).a, SArr.make(b).a))
M[np.shape] = lambda x: SArr.make(x).shape
M[np.size] = lambda x: SArr.make(x).size
M[np.ravel] = lambda x: SArr.make(x).ravel()
M[np.atleast_1d] = lambda x: SArr(np.atleast_1d(SArr.make(x).a))
M[np.transpose] = lambda x: SArr.make(x).T
M[np.unique] = lambda x, **k: INTERP.native(np.unique, (x,), k)


@model(np.where)
def m_where(c, *ab):
    if not ab:
        return SArr.make(c).nonzero()
    a, b = ab
    if not isinstance(c, (SArr, list, np.ndarray)) and not isinstance(a, SArr) and not isinstance(b, SArr):
        return merge(truth(c), a, b)
    ca, aa, ba = SArr.make(c).a, SArr.make(a).a, SArr.make(b).a
    sh = np.broadcast_shapes(ca.shape, aa.shape, ba.shape)
    ca, aa, ba = (np.broadcast_to(x, sh) for x in (ca, aa, ba))
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        out[i] = merge(truth(ca[i]), aa[i], ba[i])
    return SArr(out)


M[np.nonzero] = lambda x: SArr.make(x).nonzero()
M[np.flatnonzero] = lambda x: SArr.make(x).nonzero()[0]
M[np.count_nonzero] = lambda x: m_sum(SArr.make(x).map(lambda v: mk_bool(truth(v))))


@model(np.clip)
def m_clip(x, lo=None, hi=None, **k):
    if is_num(x):
        r = x
        if lo is not None:
            r = fold_max([npify(r), npify(lo)])
        if hi is not None:
            r = fold_min([npify(r), npify(hi)])
        return r
    return SArr.make(x).clip(lo, hi)


@model(np.average)
def m_average(x, axis=None, weights=None, **k):
    x = SArr.make(x)
    if weights is None:
        return x.mean(axis)
    w = SArr.make(weights)
    tot = w.sum()
    raise_if(eq(tot, 0), ZeroDivisionError("Weights sum to zero, can't be normalized"))
    return (x * w).sum(axis) / tot


@model(np.quantile)
def m_quantile(x, q, **k):
    if k:
        raise Unsupported('quantile options')
    if symbolic(q) and not isinstance(q, (IList, SArr)):
        return sym_quantile(x, q)
    if isinstance(q, (list, SArr, np.ndarray)):
        return SArr.make([m_quantile(x, v) for v in definite(q)])
    vs = [to_float(v) for v in SArr.make(x).a.flat]
    n = len(vs)
    if n == 0:
        raise_(IndexError('index -1 is out of bounds'))
    s = sort_list(vs, lambda v: v)
    anynan = OR(*[lift(v).nan for v in vs])
    qf = const_of(lift(q))
    raise_if(not 0 <= qf <= 1, ValueError('Quantiles must be in the range [0, 1]'))
    h = core.Fraction(repr(float(qf))) * (n - 1)
    lo = int(h)
    fr = h - lo
    r = s[lo]
    if fr:
        a, b = lift(s[lo]), lift(s[lo + 1])
        r = core.n_add(a, core.n_mul(lift(fr), core.n_add(b, core.n_neg(a))))
        r = SNum(r.e, r.nan, r.pinf, r.ninf, True)
    return merge(anynan, np.float64(np.nan), r)


def sym_quantile(x, q):
    """symbolic level: linear interpolation between order statistics"""
    vs = [to_float(v) for v in SArr.make(x).a.flat]
    n = len(vs)
    s = [lift(v) for v in sort_list(vs, lambda v: v)]
    q = lift(q)
    raise_if(NOT(AND(core.n_le(lift(0), q), core.n_le(q, lift(1)))), ValueError('Quantiles must be in the range [0, 1]'))
    h = core.n_mul(q, lift(n - 1))
    r = s[n - 1]
    for i in reversed(range(n - 1)):
        fr = core.n_add(h, lift(-i))
        v = core.n_add(s[i], core.n_mul(fr, core.n_add(s[i + 1], core.n_neg(s[i]))))
        v = core.n_ite(core.n_eq(fr, lift(0)), s[i], v)
        r = core.n_ite(core.n_lt(h, lift(i + 1)), v, r)
    anynan = OR(*[lift(v).nan for v in vs])
    return merge(anynan, np.float64(np.nan), SNum(r.e, r.nan, r.pinf, r.ninf, True))


M[np.percentile] = lambda x, q, **k: m_quantile(x, INTERP.binop(ast.Div, q, 100), **k)
M[np.median] = lambda x, **k: m_quantile(x, 0.5)


def vcall(f, *xs):
    arrs = [SArr.make(x) for x in xs]
    if all(a.ndim == 0 for a in arrs):
        return INTERP.call(f, tuple(a.a[()] for a in arrs))
    return SArr.make([INTERP.call(f, t) for t in zip(*[list(a) for a in arrs])])


M[np.vectorize] = lambda f, **k: Partial(vcall, (f,), {})
vcall.__sx__ = True
M[np.isscalar] = lambda x: is_num(x) or isinstance(x, str)
M[np.ndim] = lambda x: 0 if is_num(x) else SArr.make(x).ndim
M[np.float64] = m_float
M[np.int64] = m_int
M[np.array_equal] = lambda a, b: mk_bool(AND(*[eq(x, y) for x, y in zip(SArr.make(a).a.flat, SArr.make(b).a.flat)])) \
    if SArr.make(a).shape == SArr.make(b).shape else False
M[(np.ndarray, '__getitem__')] = lambda a, k: INTERP.getitem(SArr.make(a), k)


@model(np.random.seed)
def m_seed(*a):
    return None


import scipy.special as sp  # noqa


@model(sp.logsumexp)
def m_lse(x, axis=None, b=None, **k):
    if axis is not None or b is not None or k:
        raise Unsupported('logsumexp options')
    vs = [v for v in SArr.make(x).a.flat]
    tot = fold_sum([M[np.exp](v) for v in vs])
    return M[np.log](tot)


def n_expit(a):
    """1 / (1 + exp(-a))"""
    if a.plain:
        t = core.exp_term(z3.simplify(core.zreal(a.e)))
        r = t / (1 + t)
        v = E().fn_terms.setdefault('EXPIT', {})
        if t.get_id() not in v:
            s = E().fresh('expit', z3.RealSort())
            v[t.get_id()] = (t, s)
            E().axiom(z3.And(s * (1 + t) == t, s > 0, s < 1))
        return SNum(v[t.get_id()][1], np=True)
    fin = SNum(a.e)
    r = n_expit(fin)
    return core.n_ite(core.zb(a.pinf), lift(1.0), core.n_ite(core.zb(a.ninf), lift(0.0), SNum(r.e, a.nan, np=True)))


np1(sp.expit, n_expit)
np1(sp.logit, lambda a: core.n_log(core.n_div(SNum(core.zreal(a.e), a.nan, a.pinf, a.ninf, True),
                                              core.n_add(lift(1.0), core.n_neg(a)))))
GAMMA = uf('gamma', lambda t, r: z3.Implies(t > 0, r > 0))
np1(sp.gamma, GAMMA)
np1(math.gamma, GAMMA)
np1(sp.gammaln, uf('lgamma'))
np1(sp.erf, uf('erf'))


# ------------------------------------------------------------------ tqdm, joblib
try:
    import tqdm as _tqdm
    M[_tqdm.tqdm] = lambda x=None, *a, **k: x
    M[_tqdm.trange] = lambda n, *a, **k: m_range(n)
except ImportError:
    pass
try:
    import joblib as _joblib

    class SParallel:
        """joblib.Parallel: runs its tasks in order, one after another"""
        __sx__ = True

        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __call__(self, tasks):
            if isinstance(tasks, GenExp):
                tasks = IList.of(tasks.sx_entries())
            out = []
            for c, t in entries(tasks):
                f, a, k = t
                v = guarded(c, lambda: INTERP.call(f, a, k))
                if v is not NOVAL:
                    out.append((c, v))
            return IList.of(out)
    M[_joblib.Parallel] = SParallel
    M[_joblib.delayed] = lambda f: Partial(lambda f_, *a, **k: (f_, a, k), (f,), {})
except ImportError:
    pass


def _delayed(f):
    return Delayed(f)


class Delayed:
    __sx__ = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f, a, k


try:
    M[_joblib.delayed] = _delayed
except NameError:
    pass


# ------------------------------------------------------------------ abc helpers
M[object.__init__] = lambda *a, **k: None


# ------------------------------------------------------------------ logging
import logging as _logging
for _n in ('info', 'warning', 'error', 'debug', 'critical', 'log', 'exception'):
    M[getattr(_logging.Logger, _n)] = lambda *a, **k: None
