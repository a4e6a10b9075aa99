"""Containers that can hold guarded content.

Each subclasses the builtin and behaves natively while its content is concrete; a mutation under a guard that is not
implied by the guard of its creation switches it to symbolic mode.  Native code touching a symbolic container forks
(concretises it) through the overridden python-level methods.
"""
import z3
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, mk_bool, merge, simp, raise_, raise_if, as_bool, truth, Dead,
                   lift, n_add, n_eq, lift_union, resolve, UNDEF, is_num, const_of, concretize_int, Unsupported, zb)


def E():
    return core.ENG


def relg(obj):
    """current guard relative to the creation guard of obj"""
    return E().g.rel(obj._g0)


def sym_key(k):
    return type(k) in (Union, SNum, SBool) or (isinstance(k, tuple) and type(k) is tuple and any(sym_key(x) for x in k))


class SymText(str):
    """text with symbolic parts; made concrete (by forking) only when its content is used"""
    __sx__ = True

    def __new__(cls, make):
        t = str.__new__(cls, '<sym>')
        t.make = make
        return t

    def force(self):
        return self.make()

    sx_concrete = force

    def sx_getattr(self, name):
        return getattr(self.force(), name)

    def __add__(self, o):
        return SymText(lambda: self.force() + (o.force() if type(o) is SymText else o))

    def __radd__(self, o):
        return SymText(lambda: o + self.force())

    def __len__(self):
        return len(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __contains__(self, k):
        return k in self.force()


def deep_sym(v, depth=0):
    t = type(v)
    if t in (SNum, SBool, Union, SymText):
        return True
    if isinstance(v, (IList, ISet, IDict)) and v._sym:
        return True
    if depth < 4:
        if t in (list, tuple, set, frozenset, IList, ISet):
            it = list.__iter__(v) if isinstance(v, list) else iter(v) if t in (tuple, set, frozenset) else set.__iter__(v)
            return any(deep_sym(x, depth + 1) for x in it)
        if t in (dict, IDict):
            return any(deep_sym(x, depth + 1) for x in dict.values(v))
    return False


# ------------------------------------------------------------------ equality
def eq(a, b):
    """python == as bool/z3 Bool"""
    if a is b and type(a) not in (SNum,):
        return True
    ta, tb = type(a), type(b)
    if ta is SymText:
        return eq(a.force(), b)
    if tb is SymText:
        return eq(a, b.force())
    if ta is Union:
        return OR(*[AND(c, eq(v, b)) for c, v in a.alts])
    if tb is Union:
        return OR(*[AND(c, eq(a, v)) for c, v in b.alts])
    if ta in (SBool, bool) and tb in (SBool, bool):
        return core.IFF(as_bool(a), as_bool(b))
    if ta in (SNum, SBool) or tb in (SNum, SBool):
        if is_num(a) and is_num(b):
            return n_eq(lift(a), lift(b))
        if hasattr(ta, 'sx_eq'):
            return a.sx_eq(b)
        if hasattr(tb, 'sx_eq'):
            return b.sx_eq(a)
        return False
    if hasattr(ta, 'sx_eq'):
        return a.sx_eq(b)
    if hasattr(tb, 'sx_eq'):
        return b.sx_eq(a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        ka, kb = set_items(a), set_items(b)
        return AND(*[core.IFF(ka.get(k, False), kb.get(k, False)) for k in list(ka) + [k for k in kb if k not in ka]])
    if isinstance(a, dict) and isinstance(b, dict):
        ia, ib = dict_items(a), dict_items(b)
        out = []
        for k in list(ia) + [k for k in ib if k not in ia]:
            ga, va = ia.get(k, (False, None))
            gb, vb = ib.get(k, (False, None))
            out.append(core.IFF(ga, gb))
            both = AND(ga, gb)
            if both is not False:
                out.append(OR(NOT(both), eq(va, vb)))
        return AND(*out)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        la, lb = entries(a), entries(b)
        if all(c is True for c, _ in la) and all(c is True for c, _ in lb):
            if len(la) != len(lb):
                return False
            return AND(*[eq(x, y) for (_, x), (_, y) in zip(la, lb)])
        if len(la) == len(lb) and aligned(la, lb):
            return AND(*[OR(NOT(c), eq(x, y)) for (c, x), (_, y) in zip(la, lb)])
        na, nb = count(la), count(lb)
        out = [n_eq(na, nb)]
        for i in range(max(len(la), len(lb))):
            pa, pb = at_pos(la, i), at_pos(lb, i)
            ok = []
            for c1, v1 in pa:
                for c2, v2 in pb:
                    c = AND(c1, c2)
                    if c is not False:
                        out.append(OR(NOT(c), eq(v1, v2)))
        return AND(*out)
    r = EQ_HOOK(a, b)
    if r is not None:
        return r
    r = a == b
    return as_bool(r) if not hasattr(type(r), 'shape') else bool(r)


def aligned(la, lb):
    """the entries of both are present under the same conditions"""
    for (c1, _), (c2, _) in zip(la, lb):
        d = core.IFF(c1, c2)
        if d is True:
            continue
        if d is False or E().feasible(NOT(d)):
            return False
    return True


ITER_HOOK = EQ_HOOK = CONTAINS_HOOK = None


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is Union:
        return OR(*[AND(c, is_(v, b)) for c, v in a.alts])
    if tb is Union:
        return OR(*[AND(c, is_(a, v)) for c, v in b.alts])
    if ta in (SBool, bool) and tb in (SBool, bool):
        return core.IFF(as_bool(a), as_bool(b))
    return a is b


# ------------------------------------------------------------------ views of any container
def set_items(s):
    """elem -> guard"""
    if isinstance(s, ISet) and s._sym:
        return dict(s._s)
    return {k: True for k in set.__iter__(s)} if isinstance(s, set) else {k: True for k in s}


def dict_items(d):
    """key -> (guard, value)"""
    if isinstance(d, IDict) and d._sym:
        return dict(d._d)
    if isinstance(d, dict):
        return {k: (True, v) for k, v in dict.items(d)}
    return {k: (True, d[k]) for k in d}


def entries(x):
    """[(guard, value)] of any iterable, in order"""
    if isinstance(x, IList):
        return list(x._e) if x._sym else [(True, v) for v in list.__iter__(x)]
    if isinstance(x, ISet):
        return [(c, k) for k, c in x._s.items()] if x._sym else [(True, v) for v in set.__iter__(x)]
    if isinstance(x, IDict):
        return [(c, k) for k, (c, _) in x._d.items()] if x._sym else [(True, v) for v in dict.__iter__(x)]
    if type(x) is Union:
        out = []
        for c, v in x.alts:
            c2 = simp(E().g, c)
            if c2 is False or (c2 is not True and not E().feasible(c2)):
                continue
            if iterable(v):
                out.extend((AND(c2, c3), w) for c3, w in entries(v))
            else:
                raise_if(c2, TypeError('object is not iterable'))
        return out
    if hasattr(type(x), 'sx_entries'):
        return x.sx_entries()
    if type(x) in (SNum, SBool):
        raise_(TypeError("'float' object is not iterable"))
    r = ITER_HOOK(x)
    if r is not None:
        return r
    try:
        return [(True, v) for v in x]
    except TypeError as ex:
        raise_(ex)


def iterable(v):
    return type(v) not in (SNum, SBool, int, float, bool) and v is not None


def count(es):
    n = sum(1 for c, _ in es if c is True)
    sy = [c for c, _ in es if not isinstance(c, bool)]
    if not sy:
        return lift(n)
    return SNum(z3.Sum([z3.IntVal(n)] + [z3.If(c, z3.IntVal(1), z3.IntVal(0)) for c in sy]))


def at_pos(es, i):
    """guarded alternatives of the i-th present entry"""
    out = []
    for j, (c, v) in enumerate(es):
        if j < i:
            continue
        if all(x is True for x, _ in es[:j]):
            ok = j == i
        else:
            k = count(es[:j])
            ok = core.cmp_(k.e == i) if const_of(k) is None else const_of(k) == i
        cc = AND(c, ok)
        if cc is not False:
            out.append((cc, v))
    return out


def contains(x, k):
    """membership as bool/z3 Bool"""
    if type(x) is Union:
        if all(isinstance(v, (IList, ISet, IDict, list, tuple, dict, set, frozenset)) for _, v in x.alts):
            return OR(*[AND(c, contains(v, k)) for c, v in x.alts])
        return as_bool(core.lift_union(x, lambda v: core.mk_bool(contains(v, k))))
    if type(k) is Union:
        return OR(*[AND(c, contains(x, v)) for c, v in k.alts])
    if isinstance(x, (ISet, IDict)) and not sym_key(k):
        if isinstance(x, ISet):
            return x._s.get(k, False) if x._sym else set.__contains__(x, k)
        return x._d[k][0] if x._sym and k in x._d else False if x._sym else dict.__contains__(x, k)
    if hasattr(type(x), 'sx_contains'):
        return as_bool(x.sx_contains(k))
    if isinstance(x, (IList, ISet, IDict)) or sym_key(k) or isinstance(x, (list, tuple)):
        return OR(*[AND(c, eq(v, k)) for c, v in entries(x)])
    r = CONTAINS_HOOK(x, k)
    if r is not None:
        return r
    try:
        return bool(k in x)
    except TypeError as ex:
        raise_(ex)


# ------------------------------------------------------------------ list
class IList(list):
    _sym = False

    def __init__(self, it=()):
        list.__init__(self)
        self._g0 = E().g
        es = entries(it)
        if all(c is True for c, _ in es):
            list.extend(self, [v for _, v in es])
        else:
            self._sym = True
            self._e = list(es)

    @classmethod
    def of(cls, es):
        r = cls()
        r._set(es)
        return r

    def _set(self, es):
        es = [(c, v) for c, v in es if c is not False]
        if all(c is True for c, _ in es):
            self._sym = False
            self._e = None
            list.clear(self)
            list.extend(self, [v for _, v in es])
        else:
            self._sym = True
            list.clear(self)
            self._e = es

    def _es(self):
        return list(self._e) if self._sym else [(True, v) for v in list.__iter__(self)]

    def concretise(self):
        if self._sym:
            es = []
            for c, v in self._e:
                if E().decide(c):
                    es.append((True, v))
            self._set(es)
        return self

    def _mut(self, es):
        """replace the content under the current guard"""
        c = relg(self)
        if c is True:
            self._set(es)
            return
        old = self._es()
        # common prefix stays, the rest is guarded
        k = 0
        while k < len(old) and k < len(es) and old[k][0] is es[k][0] and old[k][1] is es[k][1]:
            k += 1
        self._set(old[:k] + [(AND(NOT(c), x), v) for x, v in old[k:]] + [(AND(c, x), v) for x, v in es[k:]])

    def sx_truth(self):
        return OR(*[c for c, _ in self._es()])

    def sx_len(self):
        n = count(self._es())
        c = const_of(n)
        return c if c is not None else n

    # mutation
    def append(self, v):
        c = relg(self)
        if c is True and not self._sym:
            list.append(self, v)
        else:
            self._set(self._es() + [(c, v)])

    def extend(self, it):
        c = relg(self)
        self._set(self._es() + [(AND(c, x), v) for x, v in entries(it)])

    def __iadd__(self, it):
        self.extend(it)
        return self

    def insert(self, i, v):
        self.concretise()
        es = self._es()
        es.insert(i, (True, v))
        self._mut(es)

    def clear(self):
        self._mut([])

    def reverse(self):
        self._mut(self._es()[::-1])

    def sort(self, key=None, reverse=False):
        from .models import sort_entries
        self._mut(sort_entries(self._es(), key, reverse))

    def pop(self, i=-1):
        self.concretise()
        es = self._es()
        if not es:
            raise_(IndexError('pop from empty list'))
        if isinstance(i, SNum):
            i = concretize_int(i)
        v = es.pop(i)[1]
        self._mut(es)
        return v

    def remove(self, v):
        es = self._es()
        found = OR(*[AND(c, eq(x, v)) for c, x in es])
        raise_if(NOT(found), ValueError('list.remove(x): x not in list'))
        out, before = [], False
        for c, x in es:
            hit = AND(c, eq(x, v), NOT(before))
            before = OR(before, hit)
            out.append((AND(c, NOT(hit)), x))
        self._mut(out)

    def copy(self):
        return IList.of(self._es())

    def index(self, v, *a):
        es = self._es()
        found = OR(*[AND(c, eq(x, v)) for c, x in es])
        raise_if(NOT(found), ValueError('is not in list'))
        r, before = [], False
        for j, (c, x) in enumerate(es):
            hit = AND(c, eq(x, v), NOT(before))
            before = OR(before, hit)
            if hit is not False:
                n = count(es[:j])
                k = const_of(n)
                r.append((hit, k if k is not None else n))
        return core.merge_all(r)

    def count(self, v):
        n = count([(AND(c, eq(x, v)), x) for c, x in self._es()])
        k = const_of(n)
        return k if k is not None else n

    # access
    def __iter__(self):
        self.concretise()
        return list.__iter__(self)

    def __len__(self):
        self.concretise()
        return list.__len__(self)

    def __bool__(self):
        return E().decide(self.sx_truth())

    def __contains__(self, v):
        return E().decide(contains(self, v))

    def sym_slice(self, a, b):
        """self[a:b] without enumerating what is present"""
        es = self._es()
        n = count(es).e

        def bound(x):
            if x is None:
                return None
            if isinstance(x, bool) or not (isinstance(x, int) or type(x) is SNum and x.plain and (const_of(x) is not None or x.e.sort() == z3.IntSort())):
                return False
            k = const_of(x) if type(x) is SNum else x
            if k is not None:
                return z3.IntVal(int(k)) if k >= 0 else z3.IntVal(int(k)) + n
            return z3.If(x.e < 0, x.e + n, x.e)
        lo, hi = bound(a), bound(b)
        if lo is False or hi is False:
            return None
        out = []
        for j, (c, v) in enumerate(es):
            k = count(es[:j]).e
            k = z3.IntVal(k) if isinstance(k, int) else k
            out.append((AND(c, True if lo is None else core.cmp_(k >= lo), True if hi is None else core.cmp_(k < hi)), v))
        return IList.of([x for x in out if x[0] is not False])

    def sx_getitem(self, i):
        if isinstance(i, slice):
            if i.step is None and (self._sym or any(isinstance(x, SNum) for x in (i.start, i.stop))):
                r = self.sym_slice(i.start, i.stop)
                if r is not None:
                    return r
            if any(isinstance(x, SNum) for x in (i.start, i.stop, i.step)):
                i = slice(*[concretize_int(x) if isinstance(x, SNum) else x for x in (i.start, i.stop, i.step)])
            if self._sym:
                if i.start is None and i.stop is None and i.step == -1:
                    return IList.of(self._es()[::-1])
                self.concretise()
            return IList.of(self._es()[i])
        if type(i) is SNum and const_of(i) is not None:
            i = int(const_of(i))
        es = self._es()
        if not self._sym and type(i) is not SNum:
            try:
                return resolve(list.__getitem__(self, i))
            except (IndexError, TypeError) as ex:
                raise_(ex)
        n = count(es)
        if type(i) is SNum:
            ok = AND(core.cmp_(i.e < n.e), core.cmp_(i.e >= -n.e))
            raise_if(NOT(ok), IndexError('list index out of range'))
            alts = []
            for k in range(len(es)):
                ck = OR(core.cmp_(i.e == k), core.cmp_(i.e + n.e == k))
                for c, v in at_pos(es, k):
                    cc = AND(ck, c)
                    if cc is not False:
                        alts.append((cc, v))
            return core.merge_all(alts)
        if i < 0:
            es2 = es[::-1]
            alts = at_pos(es2, -i - 1)
        else:
            alts = at_pos(es, i)
        raise_if(NOT(OR(*[c for c, _ in alts])), IndexError('list index out of range'))
        return core.merge_all(alts)

    def __getitem__(self, i):
        return self.sx_getitem(i)

    def sx_setitem(self, i, v):
        c = relg(self)
        if isinstance(i, slice):
            es = self.concretise()._es()
            es[i] = [(True, x) for x in v]
            self._mut(es)
            return
        if self._sym:
            self.concretise()
        n = list.__len__(self)
        if type(i) is SNum and const_of(i) is not None:
            i = int(const_of(i))
        if type(i) is SNum:
            raise_if(NOT(AND(i.e < n, i.e >= -n)), IndexError('list assignment index out of range'))
            for k in range(n):
                ck = AND(c, OR(i.e == k, i.e + n == k))
                list.__setitem__(self, k, merge(ck, v, list.__getitem__(self, k)))
            return
        if not -n <= i < n:
            raise_(IndexError('list assignment index out of range'))
        list.__setitem__(self, i, merge(c, v, list.__getitem__(self, i)))

    def __setitem__(self, i, v):
        self.sx_setitem(i, v)

    def __delitem__(self, i):
        es = self.concretise()._es()
        try:
            del es[i]
        except IndexError as ex:
            raise_(ex)
        self._mut(es)

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return IList.of(self._es() + entries(o))

    def __radd__(self, o):
        return IList.of(entries(o) + self._es())

    def __mul__(self, n):
        n = concretize_int(n) if isinstance(n, SNum) else n
        return IList.of(self._es() * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        return mk_bool(eq(self, o))

    def __ne__(self, o):
        return mk_bool(NOT(eq(self, o)))

    __hash__ = None

    def __repr__(self):
        return 'IList(%r)' % (self._e,) if self._sym else list.__repr__(self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __deepcopy__(self, memo):
        import copy
        return IList.of([(c, copy.deepcopy(v, memo)) for c, v in self._es()])


# ------------------------------------------------------------------ set
class ISet(set):
    _sym = False

    def __init__(self, it=()):
        set.__init__(self)
        self._g0 = E().g
        self._fill(entries(it))

    @classmethod
    def of(cls, items):
        """items: elem -> guard"""
        r = cls()
        r._set(items)
        return r

    def _set(self, items):
        items = {k: c for k, c in items.items() if c is not False}
        if all(c is True for c in items.values()):
            self._sym = False
            self._s = None
            set.clear(self)
            set.update(self, items)
        else:
            self._sym = True
            set.clear(self)
            self._s = items

    def _items(self):
        return dict(self._s) if self._sym else {k: True for k in set.__iter__(self)}

    def _fill(self, es):
        items = self._items()
        conc = True
        for c, v in es:
            for c2, k in flat_keys(c, v):
                items[k] = OR(items.get(k, False), c2)
        self._set(items)

    def concretise(self):
        if self._sym:
            self._set({k: E().decide(c) for k, c in self._s.items()})
        return self

    def sx_truth(self):
        return OR(*self._items().values())

    def sx_len(self):
        n = count([(c, k) for k, c in self._items().items()])
        c = const_of(n)
        return c if c is not None else n

    # mutation
    def add(self, v):
        c = relg(self)
        if c is True and not self._sym and not sym_key(v):
            set.add(self, v)
            return
        self._fill([(c, v)])

    def update(self, *its):
        c = relg(self)
        for it in its:
            self._fill([(AND(c, x), v) for x, v in entries(it)])

    def _mut(self, items):
        c = relg(self)
        old = self._items()
        keys = list(old) + [k for k in items if k not in old]
        self._set({k: core.BITE(c, items.get(k, False), old.get(k, False)) for k in keys})

    def discard(self, v):
        items = self._items()
        for c2, k in flat_keys(True, v):
            if k in items:
                items[k] = AND(items[k], NOT(c2))
        self._mut(items)

    def remove(self, v):
        raise_if(NOT(contains(self, v)), KeyError(v))
        self.discard(v)

    def clear(self):
        self._mut({})

    def pop(self):
        self.concretise()
        if not set.__len__(self):
            raise_(KeyError('pop from an empty set'))
        k = next(iter(sorted(set.__iter__(self), key=str)))
        self.discard(k)
        return k

    def difference_update(self, *its):
        self._mut(self.difference(*its)._items())

    def intersection_update(self, *its):
        self._mut(self.intersection(*its)._items())

    def symmetric_difference_update(self, it):
        self._mut(self.symmetric_difference(it)._items())

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    # algebra
    def copy(self):
        return ISet.of(self._items())

    def union(self, *its):
        r = ISet.of(self._items())
        for it in its:
            r._fill(entries(it))
        return r

    def intersection(self, *its):
        items = self._items()
        for it in its:
            o = ISet(it)._items()
            items = {k: AND(c, o.get(k, False)) for k, c in items.items()}
        return ISet.of(items)

    def difference(self, *its):
        items = self._items()
        for it in its:
            o = ISet(it)._items()
            items = {k: AND(c, NOT(o.get(k, False))) for k, c in items.items()}
        return ISet.of(items)

    def symmetric_difference(self, it):
        a, b = self._items(), ISet(it)._items()
        return ISet.of({k: NOT(core.IFF(a.get(k, False), b.get(k, False))) for k in list(a) + [k for k in b if k not in a]})

    def issubset(self, it):
        o = ISet(it)._items()
        return mk_bool(AND(*[OR(NOT(c), o.get(k, False)) for k, c in self._items().items()]))

    def issuperset(self, it):
        return ISet(it).issubset(self)

    def isdisjoint(self, it):
        o = ISet(it)._items()
        return mk_bool(AND(*[NOT(AND(c, o.get(k, False))) for k, c in self._items().items()]))

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) or hasattr(o, 'sx_setlike') else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) or hasattr(o, 'sx_setlike') else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) or hasattr(o, 'sx_setlike') else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __ror__ = __or__
    __rand__ = __and__
    __rxor__ = __xor__

    def __rsub__(self, o):
        return ISet(o).difference(self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return mk_bool(AND(as_bool(self.issubset(o)), NOT(eq(self, ISet(o)))))

    def __gt__(self, o):
        return mk_bool(AND(as_bool(self.issuperset(o)), NOT(eq(self, ISet(o)))))

    def __eq__(self, o):
        return mk_bool(eq(self, o))

    def __ne__(self, o):
        return mk_bool(NOT(eq(self, o)))

    __hash__ = None

    def __iter__(self):
        self.concretise()
        return set.__iter__(self)

    def __len__(self):
        self.concretise()
        return set.__len__(self)

    def __bool__(self):
        return E().decide(self.sx_truth())

    def __contains__(self, v):
        return E().decide(contains(self, v))

    def __repr__(self):
        return 'ISet(%r)' % (self._s,) if self._sym else set.__repr__(self)

    def __deepcopy__(self, memo):
        return self.copy()


def number_leaves(v):
    """[(guard, float)] of a number that is one of a few constants"""
    if not v.plain:
        return None
    out = []

    def go(c, e):
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, x, y = e.children()
            return go(AND(c, a), x) and go(AND(c, z3.Not(a)), y)
        if z3.is_rational_value(e) and len(out) < 24:
            f = e.as_fraction()
            out.append((c, float(f)))
            return True
        return False
    return out if go(True, z3.simplify(v.e)) else None


def flat_keys(c, v):
    """[(guard, concrete hashable)]"""
    if type(v) is Union:
        return [(AND(c, c2), k) for cc, x in v.alts for c2, k in flat_keys(cc, x)]
    if type(v) is tuple and any(sym_key(x) for x in v):
        out = [(c, ())]
        for x in v:
            out = [(AND(c1, c2), t + (k,)) for c1, t in out for c2, k in flat_keys(True, x)]
        return out
    if type(v) is SNum:
        k = const_of(v)
        if k is None:
            if v.is_int:
                return [(c, concretize_int(v))]
            ls = number_leaves(v)
            if ls:
                return [(AND(c, c2), k) for c2, k in ls]
            return [(c, v)]
        return [(c, k)]
    if type(v) is SBool:
        return [(AND(c, v.e), True), (AND(c, NOT(v.e)), False)]
    try:
        hash(v)
    except TypeError as ex:
        raise_(ex)
    return [(c, v)]


# ------------------------------------------------------------------ dict
class IDict(dict):
    _sym = False

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self._g0 = E().g
        if a:
            self._merge_in(a[0], True)
        for k, v in kw.items():
            dict.__setitem__(self, k, v) if not self._sym else self._d.__setitem__(k, (True, v))

    @classmethod
    def of(cls, items):
        r = cls()
        r._set(items)
        return r

    def _set(self, items):
        items = {k: cv for k, cv in items.items() if cv[0] is not False}
        dict.clear(self)
        if all(c is True for c, _ in items.values()):
            self._sym = False
            self._d = None
            for k, (_, v) in items.items():
                dict.__setitem__(self, k, v)
        else:
            self._sym = True
            self._d = items

    def _items(self):
        return dict(self._d) if self._sym else {k: (True, v) for k, v in dict.items(self)}

    def _merge_in(self, src, c):
        items = self._items()
        if type(src) is Union:
            for c2, v in src.alts:
                c2 = simp(E().g, c2)
                if c2 is False or (c2 is not True and not E().feasible(c2)):
                    continue
                self._merge_in(v, AND(c, c2))
            return
        if isinstance(src, dict):
            pairs = [(AND(c, g), k, v) for k, (g, v) in dict_items(src).items()]
        elif hasattr(src, 'sx_items'):
            pairs = [(AND(c, g), k, v) for g, k, v in src.sx_items()]
        elif hasattr(src, 'keys') and not isinstance(src, type):
            from .interp import INTERP
            ks = INTERP.call(INTERP.getattr(src, 'keys'))
            from .models import guarded, NOVAL
            pairs = []
            for g, k in entries(ks):
                v = guarded(AND(c, g), lambda: INTERP.getitem(src, k))
                if v is not NOVAL:
                    pairs.append((AND(c, g), k, v))
        else:
            if not isinstance(src, (list, tuple, IList)) and hasattr(type(src), '__iter__'):
                from .interp import INTERP
                src = INTERP.iterate_object(src)
            pairs = []
            from .interp import INTERP
            for g, kv in entries(src):
                k, v = INTERP.unpack(kv, 2, None)
                pairs.append((AND(c, g), k, v))
        for g, k, v in pairs:
            for g2, kk in flat_keys(g, k):
                self._put(items, g2, kk, v)
        self._set(items)

    @staticmethod
    def _put(items, c, k, v):
        if c is False:
            return
        if k in items:
            c0, v0 = items[k]
            items[k] = (OR(c0, c), merge(c, v, v0) if c0 is True or c is True else merge(c, v, v0))
        else:
            items[k] = (c, v)

    def concretise(self):
        if self._sym:
            self._set({k: (E().decide(c), v) for k, (c, v) in self._d.items()})
        return self

    def sx_truth(self):
        return OR(*[c for c, _ in self._items().values()])

    def sx_len(self):
        n = count([(c, k) for k, (c, v) in self._items().items()])
        c = const_of(n)
        return c if c is not None else n

    def __setitem__(self, k, v):
        c = relg(self)
        if c is True and not sym_key(k):
            if not self._sym:
                try:
                    dict.__setitem__(self, k, v)
                except TypeError as ex:
                    raise_(ex)
            else:
                self._d[k] = (True, v)
                if all(x is True for x, _ in self._d.values()):
                    self._set(self._d)
            return
        items = self._items()
        for c2, kk in flat_keys(c, k):
            self._put(items, c2, kk, v)
        self._set(items)

    def sx_get(self, k):
        """[(guard, value)] and the guard of absence"""
        items = self._items()
        alts = []
        for c, kk in flat_keys(True, k):
            if kk in items:
                g, v = items[kk]
                cc = AND(c, g)
                if cc is not False:
                    alts.append((cc, v))
        return alts, NOT(OR(*[c for c, _ in alts]))

    def __getitem__(self, k):
        if not self._sym and not sym_key(k):
            try:
                return resolve(dict.__getitem__(self, k))
            except (KeyError, TypeError) as ex:
                if hasattr(type(self), '__missing__'):
                    return self.__missing__(k)
                raise_(ex)
        alts, absent = self.sx_get(k)
        if hasattr(type(self), '__missing__'):
            a = simp(E().g, absent)
            if a is not False and E().feasible(a):
                if E().decide(absent):
                    return self.__missing__(k)
        else:
            raise_if(absent, KeyError(k if not sym_key(k) else '<sym>'))
        if len(alts) == 1:
            return resolve(alts[0][1])
        return resolve(core.merge_all(alts))

    def get(self, k, default=None):
        alts, absent = self.sx_get(k)
        if absent is True:
            return default
        return resolve(core.merge_all(alts + ([(absent, default)] if absent is not False else [])))

    def __delitem__(self, k):
        alts, absent = self.sx_get(k)
        raise_if(absent, KeyError(k))
        self._del(k)

    def _del(self, k):
        c = relg(self)
        items = self._items()
        for c2, kk in flat_keys(c, k):
            if kk in items:
                items[kk] = (AND(items[kk][0], NOT(c2)), items[kk][1])
        self._set(items)

    def pop(self, k, *default):
        alts, absent = self.sx_get(k)
        if default:
            r = core.merge_all(alts + ([(absent, default[0])] if absent is not False else []))
        else:
            raise_if(absent, KeyError(k))
            r = core.merge_all(alts)
        self._del(k)
        return resolve(r)

    def popitem(self):
        self.concretise()
        if not dict.__len__(self):
            raise_(KeyError('popitem(): dictionary is empty'))
        k = list(dict.__iter__(self))[-1]
        v = dict.__getitem__(self, k)
        self._del(k)
        return k, v

    def setdefault(self, k, default=None):
        r = self.get(k, default)
        alts, absent = self.sx_get(k)
        if absent is not False:
            g0 = E().g
            E().under(absent, lambda: self.__setitem__(k, default))
            E().g = g0
        return r

    def update(self, *a, **kw):
        c = relg(self)
        for x in a:
            self._merge_in(x, c)
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        c = relg(self)
        self._set({k: (AND(g, NOT(c)), v) for k, (g, v) in self._items().items()})

    def copy(self):
        return IDict.of(self._items())

    def keys(self):
        return KeysView(self) if self._sym else dict.keys(self)

    def values(self):
        return IList.of([(c, v) for c, v in self._items().values()]) if self._sym else dict.values(self)

    def items(self):
        return IList.of([(c, (k, v)) for k, (c, v) in self._items().items()]) if self._sym else dict.items(self)

    def __iter__(self):
        self.concretise()
        return dict.__iter__(self)

    def __len__(self):
        self.concretise()
        return dict.__len__(self)

    def __bool__(self):
        return E().decide(self.sx_truth())

    def __contains__(self, k):
        return E().decide(contains(self, k))

    def __eq__(self, o):
        return mk_bool(eq(self, o))

    def __ne__(self, o):
        return mk_bool(NOT(eq(self, o)))

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = IDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return 'IDict(%r)' % (self._d,) if self._sym else dict.__repr__(self)

    def __deepcopy__(self, memo):
        import copy
        return IDict.of({k: (c, copy.deepcopy(v, memo)) for k, (c, v) in self._items().items()})

    @staticmethod
    def fromkeys(it, v=None):
        r = IDict()
        for c, k in entries(it):
            for c2, kk in flat_keys(c, k):
                items = r._items()
                IDict._put(items, c2, kk, v)
                r._set(items)
        return r


class KeysView(ISet):
    """snapshot of the keys of a symbolic dict (set-like, ordered)"""

    def __init__(self, d=()):
        if isinstance(d, IDict):
            set.__init__(self)
            self._g0 = E().g
            self._set({k: c for k, (c, _) in d._items().items()})
        else:
            ISet.__init__(self, d)
