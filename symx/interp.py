"""Merging symbolic interpreter of Python source.

Functions whose source lies under one of ROOTS are executed from their *current* AST (re-read from disk in every run);
everything else is native: functions with a model (models.py) are executed symbolically, the others are called with
concrete arguments (symbolic ones are concretised by forking where that is finite).
"""
import ast
import builtins
import os
import sys
import types
import operator
import z3
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, UNDEF, Dead, Unsupported, Inconclusive, mk_bool, merge, merge_all,
                   simp, raise_, raise_if, as_bool, truth, lift, lift_union, resolve, is_num, concretize_int, const_of)
from . import containers as C
from .containers import IList, ISet, IDict, entries, eq, is_, contains, deep_sym, SymText

ROOTS = []


def text(v):
    return isinstance(v, str) or (type(v) is Union and all(isinstance(x, str) for _, x in v.alts))


TRACE_FUNCS = {}          # qualname -> number of interpreted calls (evidence)
DEBUG = bool(os.environ.get('SX_DEBUG'))


def E():
    return core.ENG


def ours_file(fn):
    return any(fn.startswith(r) for r in ROOTS)


def ours_func(f):
    return isinstance(f, types.FunctionType) and ours_file(f.__code__.co_filename)


_ours_cls = {}


def ours_class(c):
    r = _ours_cls.get(c)
    if r is None:
        m = sys.modules.get(c.__module__)
        fn = getattr(m, '__file__', None) or ''
        r = _ours_cls[c] = ours_file(fn)
    return r


# ------------------------------------------------------------------ source index
_index = {}


def file_index(fn):
    if fn in _index:
        return _index[fn]
    with open(fn) as f:
        tree = ast.parse(f.read(), fn)
    idx = {}

    def walk(node, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                walk(ch, ch.name)
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                idx.setdefault((line, ch.name), []).append((ch, cls))
                walk(ch, cls)
            elif isinstance(ch, ast.Lambda):
                idx.setdefault((ch.lineno, '<lambda>'), []).append((ch, cls))
                walk(ch, cls)
            else:
                walk(ch, cls)
    walk(tree, None)
    _index[fn] = idx
    return idx


def find_ast(code):
    idx = file_index(code.co_filename)
    c = idx.get((code.co_firstlineno, code.co_name), [])
    if not c:
        raise Unsupported('no source for %s:%s %s' % (code.co_filename, code.co_firstlineno, code.co_name))
    if len(c) == 1:
        return c[0]
    cols = [(p[0], p[2]) for p in code.co_positions() if p[2] is not None]
    for node, cls in c:
        if isinstance(node, ast.Lambda):
            b = node.body
            if (b.lineno, b.col_offset) in cols:
                return node, cls
    return c[0]


_isgen = {}


def is_generator(node):
    r = _isgen.get(node)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _isgen[node] = r
    return r


# ------------------------------------------------------------------ environments
class Env:
    def __init__(self, glob, parent=None, cls=None, closure=None, defcls=None):
        self.vars = {}
        self.g0 = E().g
        self.ignore = set()
        self.glob = glob
        self.parent = parent
        self.cls = cls              # class name for mangling
        self.closure = closure or {}
        self.defcls = defcls        # value of __class__
        self.first = None
        self.tries = 0
        self.nonlocals = {}
        self.globals_ = set()
        self.yields = None

    def rel(self):
        g = E().g
        b = self.g0.conj
        ig = self.ignore
        return AND(*[e for i, e in g.conj.items() if i not in b and i not in ig])

    def set(self, name, v):
        if name in self.globals_:
            c = E().g.expr
            old = self.glob.get(name, UNDEF)
            E().globals_log.append((self.glob, name, old))
            self.glob[name] = merge(c, v, old)
            return
        if name in self.nonlocals:
            self.nonlocals[name].set(name, v)
            return
        if name not in self.vars and name in self.closure and name in self.nonlocals:
            raise Unsupported('nonlocal write to a native closure')
        c = self.rel()
        if c is True:
            self.vars[name] = v
        else:
            self.vars[name] = merge(c, v, self.vars.get(name, UNDEF))

    def get(self, name):
        env = self
        while env is not None:
            if name in env.vars:
                v = resolve(env.vars[name])
                if v is UNDEF:
                    raise_(UnboundLocalError("cannot access local variable '%s'" % name))
                if type(v) is Union and any(x is UNDEF for _, x in v.alts):
                    bad = OR(*[c for c, x in v.alts if x is UNDEF])
                    raise_if(bad, UnboundLocalError("cannot access local variable '%s'" % name))
                    alts = [(c, x) for c, x in v.alts if x is not UNDEF]
                    v = alts[0][1] if len(alts) == 1 else Union(alts)
                return v
            if name in env.closure:
                try:
                    return env.closure[name].cell_contents
                except ValueError:
                    raise_(NameError(name))
            env = env.parent
        if name in self.glob:
            return resolve(self.glob[name])
        b = self.glob.get('__builtins__', builtins)
        b = b if isinstance(b, dict) else b.__dict__
        if name in b:
            return b[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise_(NameError("name '%s' is not defined" % name))


class LocalsEnv(Env):
    """environment of eval(): looks names up in a mapping first"""

    def __init__(self, glob, mapping):
        Env.__init__(self, glob)
        self.mapping = mapping

    def get(self, name):
        if name in self.vars:
            return Env.get(self, name)
        m = self.mapping
        if m is not None:
            def one(mm):
                if isinstance(mm, IDict):
                    alts, absent = mm.sx_get(name)
                    if absent is False:
                        return resolve(merge_all(alts))
                    if absent is True:
                        return Env.get(self, name)
                    if E().feasible(absent):
                        cond = NOT(absent)
                        return INTERP.ite(cond, lambda: resolve(merge_all(alts)), lambda: Env.get(self, name))
                    return resolve(merge_all(alts))
                if isinstance(mm, dict):
                    if dict.__contains__(mm, name):
                        return mm[name]
                    return Env.get(self, name)
                # arbitrary mapping: KeyError means absent
                r = INTERP.try_call(lambda: INTERP.getitem(mm, name), (KeyError,), lambda: Env.get(self, name))
                return r
            if type(m) is Union:
                return lift_union(m, one)
            return one(m)
        return Env.get(self, name)


class IFunc:
    """an interpreted function or lambda created by interpreted code"""
    __sx__ = True

    def __init__(self, node, env, defaults, kwdefaults, name, cls=None):
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name
        self.cls = cls

    def __call__(self, *a, **k):
        return INTERP.call(self, a, k)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)


class GenExp:
    """a generator expression not consumed yet"""
    __sx__ = True

    def __init__(self, node, env):
        self.node = node
        self.env = env
        self.done = None

    def sx_entries(self):
        if self.done is None:
            self.done = IList.of(INTERP.comp(self.node, self.env))
        return self.done._es()

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))


class Iter:
    """an iterator over guarded entries"""
    __sx__ = True

    def __init__(self, es):
        self.es = list(es)
        self.pos = IList([0])

    def sx_entries(self):
        p = self.pos.sx_getitem(0)
        p = concretize_int(p) if isinstance(p, SNum) else p
        es = self.es[p:]
        self.pos.sx_setitem(0, len(self.es))
        return es

    def __iter__(self):
        return iter(IList.of(self.sx_entries()))

    def sx_next(self, default):
        p = self.pos.sx_getitem(0)
        p = concretize_int(p) if isinstance(p, SNum) else p
        while p < len(self.es):
            c, v = self.es[p]
            p += 1
            if E().decide(c):
                self.pos.sx_setitem(0, p)
                return v
        self.pos.sx_setitem(0, p)
        if default is None:
            raise_(StopIteration())
        return default[0]

    def __next__(self):
        return self.sx_next(None)


class LoopT:
    pass


class SuperObj:
    __sx__ = True

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.MatMult: operator.matmul,
          ast.LShift: operator.lshift, ast.RShift: operator.rshift}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
           ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand,
           ast.BitOr: operator.ior, ast.BitXor: operator.ixor}
DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.Pow: '__pow__',
          ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.FloorDiv: '__floordiv__',
          ast.Mod: '__mod__', ast.MatMult: '__matmul__'}
CMPD = {ast.Lt: ('__lt__', '__gt__', operator.lt), ast.Gt: ('__gt__', '__lt__', operator.gt),
        ast.LtE: ('__le__', '__ge__', operator.le), ast.GtE: ('__ge__', '__le__', operator.ge)}

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'popitem',
            'sort', 'reverse', '__setitem__', '__delitem__', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'appendleft', 'popleft', 'fill', 'put'}

INTERNAL = (Unsupported, Inconclusive, core.NonReal, z3.Z3Exception)


def has_own(obj, name):
    """the interpreted function implementing special method name for obj, or None"""
    f = getattr(type(obj), name, None)
    return f if f is not None and ours_func(f) else None


class Interp:
    def __init__(self):
        self.depth = 0
        self.models = {}
        self.new_models = []        # [(predicate(cls), fn(cls, args, kw))]
        self.native_ok = set()
        self.frames = []

    # -------------------------------------------------------------- helpers
    def ite(self, c, fa, fb):
        """value of fa() where c holds, fb() elsewhere"""
        eng = E()
        c = simp(eng.g, as_bool(c))
        if c is True:
            return fa()
        if c is False:
            return fb()
        g0, mark = eng.g, len(eng.exits)
        ft = eng.feasible(c)
        res = []
        if ft:
            ok, a = eng.under(c, fa)
            if ok:
                res.append((c, a))
        n = NOT(c)
        if eng.feasible(n):
            ok, b = eng.under(n, fb)
            if ok:
                res.append((n, b))
        eng.rejoin(g0, mark)
        if not res:
            raise Dead()
        return merge_all(res)

    def try_call(self, fn, types_, handler):
        """fn(), with exceptions of types_ raised in it handled by handler()"""
        eng = E()
        g0, mark = eng.g, len(eng.exits)
        res = []
        try:
            v = fn()
            res.append((eng.g.rel(g0), v))
        except Dead:
            pass
        new = eng.exits[mark:]
        caught = [x for x in new if x[0] == 'raise' and isinstance(x[3], types_)]
        if caught:
            eng.exits[mark:] = [x for x in new if not any(x is y for y in caught)]
            for x in caught:
                eng.g = x[2]
                if not eng.feasible(True):
                    continue
                try:
                    v = handler()
                    res.append((eng.g.rel(g0), v))
                except Dead:
                    pass
        eng.rejoin(g0, mark)
        if not res:
            raise Dead()
        return merge_all(res)

    # -------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = tuple(args)
        t = type(f)
        if t is Union:
            return lift_union(f, lambda x: self.call(x, args, kw))
        if t is types.MethodType:
            fn = f.__func__
            if ours_func(fn) or isinstance(fn, IFunc):
                return self.call(fn, (f.__self__,) + args, kw)
            m = self.models.get(fn)
            if m is not None:
                return m(f.__self__, *args, **kw)
            if getattr(type(f.__self__), '__sx__', False) or isinstance(f.__self__, (IList, ISet, IDict)) or \
                    getattr(fn, '__sx__', False):
                return f(*args, **kw)
            if isinstance(f.__self__, type) and f.__self__ in self.models:
                pass
            return self.native(f, args, kw)
        if t is IFunc:
            return self.run(f.node, f.env.glob, f.env, f.cls, {}, f.defaults, f.kwdefaults, args, kw, f.__name__, None)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if t is types.FunctionType:
            if ours_func(f):
                return self.call_function(f, args, kw)
            if getattr(f, '__sx__', False):
                return f(*args, **kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if getattr(t, '__sx__', False):
            return f(*args, **kw)
        if t is types.BuiltinMethodType or t is types.MethodWrapperType:
            s = f.__self__
            if isinstance(s, (IList, ISet, IDict)) or type(s) in (SNum, SBool):
                return f(*args, **kw)
            m = self.models.get((type(s), f.__name__))
            if m is not None:
                return m(s, *args, **kw)
            return self.native(f, args, kw)
        own = has_own(f, '__call__')
        if own:
            return self.call(own, (f,) + args, kw)
        for k in t.__mro__:
            m = self.models.get((k, '__call__'))
            if m is not None:
                return m(f, *args, **kw)
        return self.native(f, args, kw)

    def call_function(self, f, args, kw):
        code = f.__code__
        node, cls = find_ast(code)
        closure = dict(zip(code.co_freevars, f.__closure__ or ()))
        defcls = None
        if '__class__' in closure:
            defcls = closure['__class__'].cell_contents
        TRACE_FUNCS[f.__module__ + '.' + f.__qualname__] = TRACE_FUNCS.get(f.__module__ + '.' + f.__qualname__, 0) + 1
        return self.run(node, f.__globals__, None, cls, closure, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kw,
                        f.__qualname__, defcls)

    def bind(self, node, defaults, kwdefaults, args, kw, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        out = {}
        kw = dict(kw)
        if len(args) > len(pos) and not a.vararg:
            raise_(TypeError('%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args))))
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kw):
            if n in pos[len(a.posonlyargs):] or n in [x.arg for x in a.kwonlyargs]:
                if n in out:
                    raise_(TypeError("%s() got multiple values for argument '%s'" % (name, n)))
                out[n] = kw.pop(n)
        if kw and not a.kwarg:
            raise_(TypeError("%s() got an unexpected keyword argument '%s'" % (name, next(iter(kw)))))
        if a.kwarg:
            d = IDict()
            for k, v in kw.items():
                d[k] = v
            out[a.kwarg.arg] = d
        nd = len(defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], defaults):
            if n not in out:
                out[n] = d
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in kwdefaults:
                    out[x.arg] = kwdefaults[x.arg]
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in out]
        if missing:
            raise_(TypeError("%s() missing required argument '%s'" % (name, missing[0])))
        return out, pos

    def run(self, node, glob, parent, cls, closure, defaults, kwdefaults, args, kw, name, defcls):
        eng = E()
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Inconclusive('recursion bound exceeded in ' + name)
        try:
            bound, pos = self.bind(node, defaults, kwdefaults, args, kw, name)
            env = Env(glob, parent, cls, closure, defcls)
            for k, v in bound.items():
                env.vars[k] = v
            if pos and pos[0] in bound:
                env.first = bound[pos[0]]
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            gen = is_generator(node)
            if gen:
                env.yields = IList()
            g0, mark = eng.g, len(eng.exits)
            raw = []
            try:
                self.body(node.body, env, top=True)
                raw.append((eng.g, None))
            except Dead:
                pass
            new = eng.exits[mark:]
            mine = [x for x in new if x[0] == 'return' and x[1] is env]
            eng.exits[mark:] = [x for x in new if not (x[0] == 'return' and x[1] is env)]
            for x in mine:
                raw.append((x[2], x[3]))
            eng.rejoin(g0, mark)
            res = [(g.rel(eng.g), v) for g, v in raw]
            if gen:
                return Iter(env.yields._es())
            if not res:
                raise Dead()
            return resolve(merge_all(res))
        finally:
            self.depth -= 1

    def instantiate(self, cls, args, kw):
        m = self.models.get(cls)
        if m is not None:
            return m(*args, **kw)
        for pred, fn in self.new_models:
            if pred(cls):
                return fn(cls, args, kw)
        if issubclass(cls, BaseException):
            if ours_class(cls) and ours_func(cls.__init__):
                obj = cls.__new__(cls)
                self.call(cls.__init__, (obj,) + args, kw)
                return obj
            try:
                return cls(*args, **kw)
            except Exception as ex:
                raise_(ex)
        if ours_class(cls):
            if getattr(cls, '__abstractmethods__', None):
                raise_(TypeError("Can't instantiate abstract class %s" % cls.__name__))
            if ours_func(cls.__new__):
                obj = self.call(cls.__new__, (cls,) + args, kw)
            elif ours_func(cls.__init__) or cls.__init__ is object.__init__:
                obj = object.__new__(cls)
            else:
                return self.native(cls, args, kw)
            E().objg[id(obj)] = (E().g, obj)
            if ours_func(cls.__init__):
                self.call(cls.__init__, (obj,) + args, kw)
            return obj
        if getattr(cls, '__sx__', False):
            return cls(*args, **kw)
        return self.native(cls, args, kw)

    # -------------------------------------------------------------- native calls
    PURE_MODULES = ('math', 'numpy', 'builtins', 're', 'ast', 'networkx', 'scipy', 'itertools', 'operator', 'copy',
                    'functools', '_operator', 'typing', 'string', 'pydantic', 'collections', 'json', 'abc', 'types',
                    'warnings', 'logging', 'fractions', 'statistics', 'time')

    def concrete(self, v, what, depth=0):
        """v without symbolic content, forking as needed"""
        t = type(v)
        if t is Union:
            return self.concrete(v.pick(), what, depth)
        if t is SBool:
            return E().decide(v.e)
        if t is SNum:
            c = const_of(v)
            if c is not None:
                import numpy as np
                return (np.float64(c) if isinstance(c, float) else c) if v.np else c
            if v.is_int and v.plain:
                return concretize_int(v)
            raise Unsupported('symbolic real handed to native code: %s' % what)
        if isinstance(v, IList):
            return [self.concrete(x, what, depth + 1) for x in list(v)]
        if isinstance(v, ISet):
            return {self.concrete(x, what, depth + 1) for x in v}
        if isinstance(v, IDict):
            return {self.concrete(k, what, depth + 1): self.concrete(x, what, depth + 1)
                    for k, x in dict.items(v.concretise())}
        if t is tuple:
            return tuple(self.concrete(x, what, depth + 1) for x in v)
        if t in (list, set, frozenset) and deep_sym(v):
            return t(self.concrete(x, what, depth + 1) for x in v)
        if t is dict and deep_sym(v):
            return {k: self.concrete(x, what, depth + 1) for k, x in v.items()}
        if t is slice:
            return slice(*[self.concrete(x, what) for x in (v.start, v.stop, v.step)])
        if isinstance(v, (Iter, GenExp)):
            return [self.concrete(x, what, depth + 1) for x in v]
        if hasattr(t, 'sx_concrete'):
            return v.sx_concrete()
        return v

    def native(self, f, args, kw):
        for i, a in enumerate(args):
            if type(a) is Union:
                return lift_union(a, lambda x: self.native(f, args[:i] + (x,) + args[i + 1:], kw))
        for k, a in kw.items():
            if type(a) is Union:
                return lift_union(a, lambda x: self.native(f, args, {**kw, k: x}))
        name = getattr(f, '__qualname__', getattr(f, '__name__', str(type(f))))
        mod = getattr(f, '__module__', None)
        slf = getattr(f, '__self__', None)
        if mod is None and slf is not None and not isinstance(slf, types.ModuleType):
            mod = type(slf).__module__
        mod = mod or 'builtins'
        pure = mod.split('.')[0] in self.PURE_MODULES
        mutator = slf is not None and not isinstance(slf, types.ModuleType) and \
            getattr(f, '__name__', '') in MUTATORS
        if (not pure or mutator) and E().g.conj:
            E().fix_guard()
        if mod.startswith('numpy.random') or (slf is not None and type(slf).__module__.startswith('numpy.random')) \
                or mod == 'random':
            raise Unsupported('unmodelled random function %s.%s' % (mod, name))
        if mutator and isinstance(slf, (list, dict, set)):
            pass
        elif mod == 'operator' or mod == '_operator':
            pass
        elif isinstance(slf, str) and name.endswith('format'):
            pass
        else:
            what = '%s.%s' % (mod, name)
            args = tuple(self.concrete(a, what) for a in args)
            kw = {k: self.concrete(a, what) for k, a in kw.items()}
        try:
            return f(*args, **kw)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            if DEBUG:
                import traceback
                traceback.print_exc()
            raise_(ex)

    # -------------------------------------------------------------- attributes and items
    def getattr(self, obj, name, default=UNDEF):
        t = type(obj)
        if t is Union:
            return lift_union(obj, lambda x: self.getattr(x, name, default))
        if t is SuperObj:
            return self.super_attr(obj, name)
        sx = getattr(t, 'sx_getattr', None)
        if sx is not None:
            r = sx(obj, name)
            if r is not UNDEF:
                return r
        if not isinstance(obj, type):
            for k in t.__mro__:
                d = k.__dict__.get(name)
                if d is None:
                    continue
                if isinstance(d, property):
                    if d.fget is not None and ours_func(d.fget):
                        return resolve(self.call(d.fget, (obj,)))
                    break
                if ours_func(d):
                    inst = self.inst_dict(obj)
                    if inst is not None and name in inst:
                        break
                    return types.MethodType(d, obj)
                if type(d).__name__ == 'cached_property' and ours_func(d.func):
                    inst = self.inst_dict(obj)
                    if inst is not None and name in inst:
                        return resolve(inst[name])
                    v = self.call(d.func, (obj,))
                    self.setattr(obj, name, v)
                    return v
                break
        try:
            v = getattr(obj, name)
        except (Dead,) + INTERNAL:
            raise
        except AttributeError as ex:
            ga = has_own(obj, '__getattr__')
            if ga:
                return self.call(ga, (obj, name))
            if default is not UNDEF:
                return default
            raise_(ex)
        except Exception as ex:
            raise_(ex)
        v = resolve(v)
        if v is UNDEF:
            if default is not UNDEF:
                return default
            raise_(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
        if type(v) is Union and any(x is UNDEF for _, x in v.alts):
            raise_if(OR(*[c for c, x in v.alts if x is UNDEF]),
                     AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
            alts = [(c, x) for c, x in v.alts if x is not UNDEF]
            v = alts[0][1] if len(alts) == 1 else Union(alts)
        return v

    @staticmethod
    def inst_dict(obj):
        try:
            return DICTGET(obj)
        except Exception:
            return None

    def super_attr(self, s, name):
        mro = type(s.obj).__mro__ if not isinstance(s.obj, type) else s.obj.__mro__
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            d = k.__dict__.get(name)
            if d is None:
                continue
            if isinstance(d, property) and ours_func(d.fget):
                return self.call(d.fget, (s.obj,))
            if ours_func(d):
                return types.MethodType(d, s.obj)
            break
        try:
            return getattr(super(s.cls, s.obj), name)
        except AttributeError as ex:
            raise_(ex)

    def setattr(self, obj, name, v):
        if type(obj) is Union:
            lift_union(obj, lambda x: self.setattr(x, name, v))
            return
        t = type(obj)
        if not isinstance(obj, type):
            for k in t.__mro__:
                d = k.__dict__.get(name)
                if isinstance(d, property):
                    if d.fset is None:
                        raise_(AttributeError("property '%s' has no setter" % name))
                    if ours_func(d.fset):
                        self.call(d.fset, (obj, v))
                        return
                    break
                if d is not None:
                    break
            sa = has_own(obj, '__setattr__')
            if sa:
                self.call(sa, (obj, name, v))
                return
        eng = E()
        if hasattr(t, 'sx_setattr'):
            if obj.sx_setattr(name, v):
                return
        rec = eng.objg.get(id(obj))
        g0 = rec[0] if rec else core.TRUEG
        c = eng.g.rel(g0)
        if c is not True:
            d = self.inst_dict(obj)
            if d is None:
                try:
                    old = object.__getattribute__(obj, name)
                except AttributeError:
                    old = UNDEF
            else:
                old = d.get(name, UNDEF)
                if old is UNDEF and hasattr(t, name):
                    old = getattr(t, name)
            v = merge(c, v, old)
        if isinstance(obj, (type, types.ModuleType)):
            eng.globals_log.append((obj, name, getattr(obj, name, UNDEF)))
        try:
            setattr(obj, name, v)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def getitem(self, obj, k):
        t = type(obj)
        if t is Union:
            return lift_union(obj, lambda x: self.getitem(x, k))
        if isinstance(obj, (IList, IDict)):
            return obj[k] if isinstance(obj, IDict) else obj.sx_getitem(k if type(k) is not Union else self.concrete(k, 'index'))
        if hasattr(t, 'sx_getitem'):
            return obj.sx_getitem(k)
        own = has_own(obj, '__getitem__')
        if own:
            return self.call(own, (obj, k))
        if type(k) is Union:
            return lift_union(k, lambda x: self.getitem(obj, x))
        if isinstance(obj, (list, tuple)):
            if type(k) is SNum and const_of(k) is None:
                return IList(obj).sx_getitem(k)
            if isinstance(k, slice):
                r = obj[self.concrete(k, 'slice')]
                return IList(r) if isinstance(r, list) else r
        if isinstance(obj, dict) and C.sym_key(k):
            return IDict(obj)[k]
        if type(k) in (SNum, SBool) or type(k) is tuple:
            k = self.concrete(k, 'index of %s' % t.__name__)
        m = self.models.get((t, '__getitem__'))
        if m is not None:
            return m(obj, k)
        try:
            return resolve(obj[k])
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def setitem(self, obj, k, v):
        t = type(obj)
        if t is Union:
            return lift_union(obj, lambda x: self.setitem(x, k, v))
        if isinstance(obj, IDict):
            obj[k] = v
            return
        if hasattr(t, 'sx_setitem'):
            if type(k) is Union:
                lift_union(k, lambda x: obj.sx_setitem(x, v))
                return
            obj.sx_setitem(k, v)
            return
        own = has_own(obj, '__setitem__')
        if own:
            self.call(own, (obj, k, v))
            return
        if E().g.conj:
            E().fix_guard()
        k = self.concrete(k, 'index')
        try:
            obj[k] = v
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def delitem(self, obj, k):
        t = type(obj)
        if t is Union:
            return lift_union(obj, lambda x: self.delitem(x, k))
        own = has_own(obj, '__delitem__')
        if own:
            self.call(own, (obj, k))
            return
        if not isinstance(obj, (IList, IDict)) and not getattr(t, '__sx__', False):
            if E().g.conj:
                E().fix_guard()
            k = self.concrete(k, 'index')
        try:
            del obj[k]
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    # -------------------------------------------------------------- protocols for objects of interpreted classes
    def iterate_object(self, x):
        own = has_own(x, '__iter__')
        if own:
            return self.call(own, (x,))
        return x

    def iter_hook(self, x):
        """entries of an object of an interpreted class, or None"""
        own = has_own(x, '__iter__')
        if own:
            return entries(self.call(own, (x,)))
        if has_own(x, '__getitem__') and not isinstance(x, (list, tuple, dict, str)):
            return self.entries_by_index(x)
        return None

    def entries_by_index(self, x):
        """old sequence protocol"""
        out = []
        n = self.length(x) if has_own(x, '__len__') else None
        if n is None or isinstance(n, SNum):
            raise Unsupported('iteration by index')
        for i in range(n):
            out.append((True, self.getitem(x, i)))
        return out

    def truth_hook(self, v):
        own = has_own(v, '__bool__')
        if own:
            return as_bool(self.call(own, (v,)))
        own = has_own(v, '__len__')
        if own:
            n = self.call(own, (v,))
            return truth(n)
        try:
            return bool(v)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def length(self, x):
        t = type(x)
        if t is Union:
            return lift_union(x, self.length)
        if hasattr(t, 'sx_len'):
            return x.sx_len()
        if isinstance(x, (IList, ISet, IDict)):
            return x.sx_len()
        own = has_own(x, '__len__')
        if own:
            return self.call(own, (x,))
        try:
            return len(x)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def eq_hook(self, a, b):
        """__eq__ of an interpreted class, else None"""
        own = has_own(a, '__eq__')
        if own:
            return as_bool(self.call(own, (a, b)))
        own = has_own(b, '__eq__')
        if own:
            return as_bool(self.call(own, (b, a)))
        return None

    def contains_hook(self, x, k):
        own = has_own(x, '__contains__')
        if own:
            return as_bool(self.call(own, (x, k)))
        if has_own(x, '__iter__'):
            return OR(*[AND(c, eq(v, k)) for c, v in self.iter_hook(x)])
        return None

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b, inplace=False):
        if op is ast.Add and (type(a) is Union or type(b) is Union) and text(a) and text(b):
            n = (len(a.alts) if type(a) is Union else 1) * (len(b.alts) if type(b) is Union else 1)
            if n > 6 or type(a) is SymText or type(b) is SymText:
                return SymText(lambda: str(self.concrete(a, 'text')) + str(self.concrete(b, 'text')))
        if type(a) is Union:
            return lift_union(a, lambda x: self.binop(op, x, b, inplace))
        if type(b) is Union:
            if not (isinstance(a, (ISet, IList)) and op in (ast.BitOr, ast.BitAnd, ast.Sub) and False):
                return lift_union(b, lambda x: self.binop(op, a, x, inplace))
        d = DUNDER.get(op)
        if d:
            own = has_own(a, d)
            if own:
                return self.call(own, (a, b))
            own = has_own(b, '__r' + d[2:])
            if own and not hasattr(type(a), d):
                return self.call(own, (b, a))
        ta, tb = type(a), type(b)
        if tb is SNum and b.np and not b.is_int and op in (ast.Div, ast.Mult, ast.Sub, ast.Add) and isinstance(a, (list, tuple, IList)):
            # numpy's scalar takes over and makes an array of the sequence
            from .arr import SArr
            a = SArr.make(a)
            ta = SArr
        # builtin containers on the left, symbolic ones on the right
        if ta in (set, frozenset) and (isinstance(b, ISet) or hasattr(tb, 'sx_setlike')):
            a = ISet(a)
        if isinstance(a, type({}.keys())) or isinstance(a, type({}.items())):
            a = ISet(a)
        if ta is list and isinstance(b, IList) and op is ast.Add:
            a = IList(a)
        if ta is list and op is ast.Add and tb is list:
            a = IList(a)
        if ta in (set, frozenset) and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            a = ISet(a)
        if ta is list and op is ast.Mult:
            a = IList(a)
        if ta is str and op is ast.Mod:
            k = core.const_of(b) if type(b) is SNum and z3.is_int(b.e) else None
            b = int(k) if k is not None else self.concrete(b, '% format') if not deep_sym(b) else str(b)
        if op is ast.Div and ta in (int, float) and tb in (int, float) and b == 0:
            raise_(ZeroDivisionError('division by zero'))
        if op is ast.Pow and tb is SNum and ta in (int, float):
            return core.n_pow(lift(a), b)
        fn = (IBINOPS if inplace and not isinstance(a, (int, float, str, tuple)) else BINOPS).get(op) or BINOPS[op]
        if inplace and not isinstance(a, (IList, ISet, IDict)) and not getattr(ta, '__sx__', False) and \
                isinstance(a, (list, set, dict)) and E().g.conj:
            E().fix_guard()
        try:
            return fn(a, b)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            if DEBUG:
                import traceback
                traceback.print_exc()
            raise_(ex)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return mk_bool(is_(a, b))
        if t is ast.IsNot:
            return mk_bool(NOT(is_(a, b)))
        if t is ast.In:
            return mk_bool(contains(b, a))
        if t is ast.NotIn:
            return mk_bool(NOT(contains(b, a)))
        if t is ast.Eq or t is ast.NotEq:
            ra = getattr(type(a), 'sx_elementwise', None) or getattr(type(b), 'sx_elementwise', None)
            if ra:
                r = (operator.eq if t is ast.Eq else operator.ne)(a, b)
                return r
            if t is ast.NotEq and has_own(a, '__ne__'):
                return self.call(has_own(a, '__ne__'), (a, b))
            import numpy as np
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return (operator.eq if t is ast.Eq else operator.ne)(a, b)
            r = eq(a, b)
            return mk_bool(r if t is ast.Eq else NOT(r))
        if type(a) is Union:
            return lift_union(a, lambda x: self.compare(op, x, b))
        if type(b) is Union:
            return lift_union(b, lambda x: self.compare(op, a, x))
        d, rd, fn = CMPD[t]
        own = has_own(a, d)
        if own:
            return self.call(own, (a, b))
        own = has_own(b, rd)
        if own:
            return self.call(own, (b, a))
        ta, tb = type(a), type(b)
        if isinstance(a, (set, frozenset)) or isinstance(a, type({}.keys())):
            if not isinstance(a, ISet):
                a = ISet(a)
        elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (deep_sym(a) or deep_sym(b)):
            la, lb = list(a), list(b)
            return mk_bool(self.lex(la, lb, t))
        if (a is None or b is None) and (ta in (SNum, SBool, float, int) or tb in (SNum, SBool, float, int)):
            raise_(TypeError("'<' not supported between instances"))
        try:
            r = fn(a, b)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)
        return r

    def lex(self, a, b, t):
        for i in range(min(len(a), len(b))):
            e = eq(a[i], b[i])
            if e is True:
                continue
            op = t if t in (ast.Lt, ast.Gt) else (ast.Lt if t is ast.LtE else ast.Gt)
            s = as_bool(self.compare(op(), a[i], b[i]))
            if e is False:
                return s
            return OR(s, AND(e, self.lex(a[i + 1:], b[i + 1:], t)))
        return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[t]

    # -------------------------------------------------------------- statements
    def body(self, stmts, env, top=False):
        for s in stmts:
            self.st(s, env)
            if top:
                # states that left at this level never come back to this environment
                env.g0 = E().g

    def st(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else None
        E().exit('return', env, v)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = env.get(t.id)
            env.set(t.id, self.binop(type(s.op), old, self.ev(s.value, env), True))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = self.mangle(t.attr, env)
            self.setattr(o, n, self.binop(type(s.op), self.getattr(o, n), self.ev(s.value, env), True))
        else:
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, k, self.binop(type(s.op), self.getitem(o, k), self.ev(s.value, env), True))

    def unpack(self, v, n, star):
        if type(v) is Union:
            return lift_union(v, lambda x: tuple(self.unpack(x, n, star)))
        es = entries(v)
        if any(c is not True for c, _ in es):
            es = [(True, x) for x in IList.of(es)]
        vs = [x for _, x in es]
        if star is None:
            if len(vs) != n:
                raise_(ValueError('%s values to unpack (expected %d)' % (
                    'too many' if len(vs) > n else 'not enough', n)))
            return vs
        if len(vs) < n - 1:
            raise_(ValueError('not enough values to unpack'))
        tail = n - 1 - star
        mid = IList(vs[star:len(vs) - tail])
        return vs[:star] + [mid] + vs[len(vs) - tail:]

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    star = i
            vs = self.unpack(v, len(t.elts), star)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.get(t.id)
                env.set(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o, n = self.ev(t.value, env), self.mangle(t.attr, env)
                self.getattr(o, n)
                if E().g.conj:
                    E().fix_guard()
                delattr(o, n)
            else:
                raise Unsupported('del target')

    def branch(self, c, fa, fb):
        """run fa where c holds, fb elsewhere (statements)"""
        eng = E()
        c = simp(eng.g, c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        g0, mark = eng.g, len(eng.exits)
        if not eng.feasible(c):
            eng.cache_note = None
            return fb()
        if not eng.feasible(NOT(c)):
            return fa()
        eng.under(c, fa)
        if eng.feasible(NOT(c)):
            eng.under(NOT(c), fb)
        eng.rejoin(g0, mark)

    def s_If(self, s, env):
        c = truth(self.ev(s.test, env))
        self.branch(c, lambda: self.body(s.body, env), lambda: self.body(s.orelse, env))

    def loop_end(self, s, env, g0, mark, T, done):
        """common end of loops: done = guards that ended normally"""
        eng = E()
        new = eng.exits[mark:]
        eng.exits[mark:] = [x for x in new if x[1] is not T]
        if s.orelse:
            brk = [x for x in new if x[1] is T and x[0] == 'break']
            m2 = len(eng.exits)
            rels = OR(*[d.rel(g0) for d in done])
            if rels is not False:
                ok_g = g0 if rels is True else g0.add(rels)
                if ok_g is not None:
                    eng.g = ok_g
                    if eng.feasible(True):
                        try:
                            self.body(s.orelse, env)
                        except Dead:
                            pass
        eng.rejoin(g0, mark)

    def iteration(self, s, env, T, live):
        """run the body under live; returns the guard that goes on to the next iteration or None"""
        eng = E()
        mark = len(eng.exits)
        eng.g = live
        try:
            self.body(s.body, env)
        except Dead:
            pass
        new = eng.exits[mark:]
        stay = [x for x in new if not (x[1] is T and x[0] == 'continue')]
        eng.exits[mark:] = stay
        return eng.minus(live, [x[2] for x in stay])

    def s_While(self, s, env):
        eng = E()
        g0, mark = eng.g, len(eng.exits)
        T = LoopT()
        env_loop, env.loop = getattr(env, 'loop', None), T
        done = []
        live = g0
        try:
            n = 0
            while True:
                eng.g = live
                try:
                    c = truth(self.ev(s.test, env))
                except Dead:
                    break
                ge = eng.g
                c = simp(ge, c)
                if c is not True and (c is False or eng.feasible(NOT(c))):
                    d = ge.add(NOT(c)) if c is not False else ge
                    if d is not None:
                        done.append(d)
                        eng.exits.append(('loopdone', T, d, None))
                if c is False or not eng.feasible(c):
                    break
                live = ge.add(c) if c is not True else ge
                if live is None:
                    break
                n += 1
                if n > eng.unwind:
                    raise Inconclusive('loop bound %d exceeded' % eng.unwind)
                live = self.iteration(s, env, T, live)
                if live is None:
                    break
        finally:
            env.loop = env_loop
        self.loop_end(s, env, g0, mark, T, done)

    def s_For(self, s, env):
        eng = E()
        it = self.ev(s.iter, env)
        g0, mark = eng.g, len(eng.exits)
        T = LoopT()
        env_loop, env.loop = getattr(env, 'loop', None), T
        done = []
        try:
            live = g0
            src = it if isinstance(it, IList) and not it._sym else None
            if src is None:
                es = iter(entries(it))
                if eng.g is not g0:         # entries() may have raised in some states
                    live = eng.g
            else:
                def gen():
                    i = 0
                    while True:
                        if src._sym:
                            rest = src._es()[i:]
                            for x in rest:
                                yield x
                            return
                        if i >= list.__len__(src):
                            return
                        yield True, list.__getitem__(src, i)
                        i += 1
                es = gen()
            for c, v in es:
                c = simp(live, c)
                if c is False:
                    continue
                eng.g = live
                if c is not True and not eng.feasible(c):
                    continue
                if c is True:
                    body_g = live
                else:
                    body_g = live.add(c)
                    if body_g is None:
                        continue
                m1 = len(eng.exits)
                eng.g = body_g
                try:
                    self.assign(s.target, v, env)
                    bg = eng.g
                    cont = self.iteration(s, env, T, bg)
                except Dead:
                    cont = None
                new = eng.exits[m1:]
                if not new and cont is not None:
                    continue
                live = eng.minus(live, [x[2] for x in new])
                if live is None:
                    break
            if live is not None:
                done.append(live)
        finally:
            env.loop = env_loop
        self.loop_end(s, env, g0, mark, T, done)

    def s_Break(self, s, env):
        E().exit('break', env.loop)

    def s_Continue(self, s, env):
        E().exit('continue', env.loop)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                raise_(RuntimeError('No active exception to reraise'))
            ex = self.handling[-1]
        else:
            ex = self.ev(s.exc, env)
            if s.cause is not None:
                self.ev(s.cause, env)
        def one(x):
            if isinstance(x, type):
                x = self.instantiate(x, (), {})
            raise_(x)
        if type(ex) is Union:
            lift_union(ex, one)
            raise Dead()
        one(ex)

    handling = []

    def s_Try(self, s, env):
        eng = E()
        g0, mark = eng.g, len(eng.exits)
        env.tries += 1
        try:
            self.body(s.body, env)
            okg = eng.g
        except Dead:
            okg = None
        env.tries -= 1
        new = eng.exits[mark:]
        raised = [x for x in new if x[0] == 'raise']
        if s.orelse and okg is not None:
            eng.g = okg
            m2 = len(eng.exits)
            try:
                self.body(s.orelse, env)
            except Dead:
                pass
        if raised and s.handlers:
            taken = []
            for h in s.handlers:
                if h.type is None:
                    types_ = (BaseException,)
                else:
                    eng.g = g0
                    tv = self.ev(h.type, env)
                    types_ = tuple(entries_flat(tv)) if isinstance(tv, tuple) else (tv,)
                mine = [x for x in raised if not any(x is y for y in taken) and isinstance(x[3], types_)]
                if not mine:
                    continue
                taken += mine
                eng.exits[:] = eng.exits[:mark] + [x for x in eng.exits[mark:] if not any(x is y for y in mine)]
                if len(mine) == 1:
                    hg, exc = mine[0][2], mine[0][3]
                else:
                    rels = [(x[2].rel(g0), x[3]) for x in mine]
                    o = OR(*[r for r, _ in rels])
                    hg = g0 if o is True else g0.add(o)
                    exc = merge_all(rels)
                if hg is None:
                    continue
                eng.g = hg
                if not eng.feasible(True):
                    continue
                self.handling = self.handling + [exc]
                try:
                    if h.name:
                        env.set(h.name, exc)
                    self.body(h.body, env)
                except Dead:
                    pass
                finally:
                    self.handling = self.handling[:-1]
        if s.finalbody:
            outs = eng.exits[mark:]
            del eng.exits[mark:]
            rest = eng.minus(g0, [x[2] for x in outs])
            if rest is not None:
                eng.g = rest
                try:
                    self.body(s.finalbody, env)
                except Dead:
                    pass
            for x in outs:
                eng.g = x[2]
                if not eng.feasible(True):
                    continue
                try:
                    self.body(s.finalbody, env)
                    eng.exits.append((x[0], x[1], eng.g, x[3]))
                except Dead:
                    pass
        eng.rejoin(g0, mark)

    def s_With(self, s, env):
        def rec(items):
            if not items:
                self.body(s.body, env)
                return
            it = items[0]
            cm = self.ev(it.context_expr, env)
            v = self.call(self.getattr(cm, '__enter__'))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            eng = E()
            g0, mark = eng.g, len(eng.exits)
            try:
                rec(items[1:])
            except Dead:
                pass
            outs = eng.exits[mark:]
            del eng.exits[mark:]
            rest = eng.minus(g0, [x[2] for x in outs])
            ex = self.getattr(cm, '__exit__')
            if rest is not None:
                eng.g = rest
                try:
                    self.call(ex, (None, None, None))
                except Dead:
                    pass
            for x in outs:
                eng.g = x[2]
                if not eng.feasible(True):
                    continue
                try:
                    if x[0] == 'raise':
                        r = self.call(ex, (type(x[3]), x[3], None))
                        if r is True:
                            continue
                    else:
                        self.call(ex, (None, None, None))
                    eng.exits.append((x[0], x[1], eng.g, x[3]))
                except Dead:
                    pass
            eng.rejoin(g0, mark)
        rec(s.items)

    def s_Assert(self, s, env):
        c = truth(self.ev(s.test, env))
        def msg():
            return self.ev(s.msg, env) if s.msg is not None else ''
        raise_if(NOT(c), AssertionError('assertion'))

    def s_FunctionDef(self, s, env):
        defaults = tuple(self.ev(d, env) for d in s.args.defaults)
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = IFunc(s, env, defaults, kwd, s.name, env.cls)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), (f,))
        env.set(s.name, f)

    def s_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]:
                    m = getattr(m, p)
                env.set(a.asname, m)
            else:
                env.set(a.name.split('.')[0], m)

    def s_ImportFrom(self, s, env):
        import importlib
        name = s.module or ''
        if s.level:
            pkg = env.glob.get('__package__') or env.glob['__name__'].rpartition('.')[0]
            name = '.' * s.level + name
            m = importlib.import_module(name, pkg)
        else:
            m = importlib.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k in getattr(m, '__all__', [k for k in vars(m) if not k.startswith('_')]):
                    env.set(k, getattr(m, k))
                continue
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(m.__name__ + '.' + a.name)
            env.set(a.asname or a.name, v)

    def s_Global(self, s, env):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env):
        for n in s.names:
            e = env.parent
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal in a native closure')
            env.nonlocals[n] = e

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)

        def go(cases):
            if not cases:
                return
            cs = cases[0]
            c, binds = self.pattern(cs.pattern, v, env)

            def yes():
                for n, x in binds:
                    env.set(n, x)
                if cs.guard is not None:
                    gd = truth(self.ev(cs.guard, env))
                    self.branch(gd, lambda: self.body(cs.body, env), lambda: go(cases[1:]))
                else:
                    self.body(cs.body, env)
            self.branch(c, yes, lambda: go(cases[1:]))
        go(s.cases)

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return eq(v, self.ev(p.value, env)), []
        if isinstance(p, ast.MatchSingleton):
            return is_(v, p.value), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True, ([(p.name, v)] if p.name else [])
            c, b = self.pattern(p.pattern, v, env)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            return OR(*[self.pattern(x, v, env)[0] for x in p.patterns]), []
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return truth(self.call(isinstance, (v, self.ev(p.cls, env)))), []
        raise Unsupported('match pattern')

    # -------------------------------------------------------------- expressions
    def ev(self, n, env):
        return getattr(self, 'e_' + type(n).__name__, self.e_unknown)(n, env)

    def e_unknown(self, n, env):
        raise Unsupported('expression ' + type(n).__name__)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return env.get(n.id)

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__') and env.cls:
            return '_' + env.cls.lstrip('_') + name
        return name

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), self.mangle(n.attr, env))

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        return slice(*[self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_List(self, n, env):
        return IList.of(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(entries(self.ev(x.value, env)))
            else:
                out.append((True, self.ev(x, env)))
        return out

    def e_Tuple(self, n, env):
        es = self.elts(n.elts, env)
        if any(c is not True for c, _ in es):
            return tuple(IList.of(es))
        return tuple(v for _, v in es)

    def e_Set(self, n, env):
        r = ISet()
        r._fill(self.elts(n.elts, env))
        return r

    def e_Dict(self, n, env):
        r = IDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                r.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                r[kk] = self.ev(v, env)
        return r

    def e_JoinedStr(self, n, env):
        out = []
        for x in n.values:
            v = self.ev(x, env)
            out.append(v)
        if any(type(x) is SymText for x in out):
            return SymText(lambda: ''.join([x.force() if type(x) is SymText else x for x in out]))
        return ''.join(out)

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        spec = self.ev(n.format_spec, env) if n.format_spec is not None else ''
        if type(v) in (SNum, SBool, Union) or deep_sym(v):
            if type(v) is Union:
                v = self.concrete(v, 'f-string') if all(isinstance(x, (str, int)) for _, x in v.alts) else SymText(lambda w=v: str(self.concrete(w, 'f-string')))
                return v if isinstance(v, str) else str(v)
            return SymText(lambda: format(self.concrete(v, 'f-string'), spec))
        if n.conversion == 114:
            return self.to_repr(v)
        if n.conversion == 115:
            return self.to_str(v)
        if not spec:
            return self.to_str(v)
        try:
            return format(v, spec)
        except Exception as ex:
            raise_(ex)

    def to_str(self, v):
        own = has_own(v, '__str__')
        if own:
            return self.call(own, (v,))
        return self.to_repr(v) if has_own(v, '__repr__') else str(v) if not isinstance(v, str) else v

    def to_repr(self, v):
        own = has_own(v, '__repr__')
        return self.call(own, (v,)) if own else repr(v)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while isinstance(e, Env) and getattr(e, 'is_comp', False):
            e = e.parent
        e.set(n.target.id, v)
        return v

    def e_Lambda(self, n, env):
        defaults = tuple(self.ev(d, env) for d in n.args.defaults)
        kwd = {a.arg: self.ev(d, env) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        return IFunc(n, env, defaults, kwd, '<lambda>', env.cls)

    def e_IfExp(self, n, env):
        c = truth(self.ev(n.test, env))
        return self.ite(c, lambda: self.ev(n.body, env), lambda: self.ev(n.orelse, env))

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i], env)
            if i == len(n.values) - 1:
                return v
            c = simp(E().g, truth(v))
            if isand:
                return self.ite(c, lambda: go(i + 1), lambda: v)
            return self.ite(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return mk_bool(NOT(truth(v)))
        if type(v) is Union:
            return lift_union(v, lambda x: self.unary(n.op, x))
        return self.unary(n.op, v)

    def unary(self, op, v):
        fn = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)]
        own = has_own(v, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(op)])
        if own:
            return self.call(own, (v,))
        try:
            return fn(v)
        except (Dead,) + INTERNAL:
            raise
        except Exception as ex:
            raise_(ex)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op), a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)

        def go(i, left):
            right = self.ev(n.comparators[i], env)
            r = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return r
            c = simp(E().g, truth(r))
            return self.ite(c, lambda: go(i + 1, right), lambda: r)
        return go(0, left)

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and (e.defcls is None or e.first is None):
                e = e.parent
            if e is None:
                raise Unsupported('super() without a class')
            return SuperObj(e.defcls, e.first)
        f = self.ev(n.func, env)
        if f is builtins.locals:
            return IDict(env.vars)
        if f is builtins.super and n.args:
            a = [self.ev(x, env) for x in n.args]
            return SuperObj(*a)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                es = entries(self.ev(x.value, env))
                if any(c is not True for c, _ in es):
                    r = self.star_model(f, args, es)
                    if r is not None:
                        args = r
                        continue
                    es = [(True, v) for v in IList.of(es)]
                args.extend(v for _, v in es)
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                d = v
                if type(d) is Union:
                    d = d.pick()
                if isinstance(d, IDict):
                    d.concretise()
                if not isinstance(d, dict):
                    d = IDict(d)
                for kk, vv in dict.items(d):
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, tuple(args), kw)

    def star_model(self, f, args, es):
        """f(*guarded entries) for union-like functions: absent entries contribute an empty container"""
        nm = getattr(f, '__name__', '')
        slf = getattr(f, '__self__', None)
        if nm in ('union', 'update') and (isinstance(slf, (set, frozenset)) or f in (set.union,)):
            out = list(args)
            for c, v in es:
                if c is True:
                    out.append(v)
                else:
                    out.append(IList.of([(AND(c, c2), x) for c2, x in entries(v)]))
            return out
        return None

    # comprehensions
    def comp(self, n, env, elt=None):
        """guarded entries of a comprehension"""
        out = []
        sub = Env(env.glob, env, env.cls, None, None)
        sub.is_comp = True

        def visit():
            if elt is not None:
                out.append((E().g, elt(sub)))
            elif isinstance(n, ast.DictComp):
                k = self.ev(n.key, sub)
                out.append((E().g, (k, self.ev(n.value, sub))))
            else:
                out.append((E().g, self.ev(n.elt, sub)))
        self.comp_run(n.generators, sub, visit)
        base = E().g
        res = []
        for g, v in out:
            res.append((g.rel(base), v))
        return res

    def comp_run(self, gens, sub, visit, first_env=None):
        eng = E()

        def level(i):
            if i == len(gens):
                visit()
                return
            gn = gens[i]
            it = self.ev(gn.iter, sub)
            g0, mark = eng.g, len(eng.exits)
            for c, v in entries(it):
                g1 = eng.g
                c = simp(g1, c)
                if c is False:
                    continue
                if c is not True and not eng.feasible(c):
                    continue
                m1 = len(eng.exits)

                def one():
                    self.assign_comp(gn.target, v, sub)
                    conds(0)

                def conds(j):
                    if j == len(gn.ifs):
                        level(i + 1)
                        return
                    t = truth(self.ev(gn.ifs[j], sub))
                    self.branch(t, lambda: conds(j + 1), lambda: None)
                if c is True:
                    one()
                else:
                    eng.under(c, one)
                    eng.rejoin(g1, m1)
        level(0)

    def assign_comp(self, t, v, sub):
        # comprehension variables are overwritten in every iteration
        if isinstance(t, ast.Name):
            sub.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    star = i
            for x, y in zip(t.elts, self.unpack(v, len(t.elts), star)):
                self.assign_comp(x.value if isinstance(x, ast.Starred) else x, y, sub)
        else:
            raise Unsupported('comprehension target')

    def e_ListComp(self, n, env):
        return IList.of(self.comp(n, env))

    def e_SetComp(self, n, env):
        r = ISet()
        r._fill(self.comp(n, env))
        return r

    def e_DictComp(self, n, env):
        r = IDict()
        items = {}
        for c, (k, v) in self.comp(n, env):
            for c2, kk in C.flat_keys(c, k):
                IDict._put(items, c2, kk, v)
        r._set(items)
        return r

    def e_GeneratorExp(self, n, env):
        return GenExp(n, env)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        e = env
        while e.yields is None:
            e = e.parent
        e.yields.append(v)
        return None

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.yields is None:
            e = e.parent
        e.yields.extend(v)
        return None

    # any/all/next over a generator expression, with short-circuit
    def short(self, ge, stop):
        """evaluate elements until stop(v) (a condition) holds; returns [(guard, value, stopcond)]"""
        eng = E()
        hits = []
        acc = [False]
        sub = Env(ge.env.glob, ge.env, ge.env.cls, None, None)
        sub.is_comp = True
        g0 = eng.g

        def visit():
            def inner():
                v = self.ev(ge.node.elt, sub)
                s = simp(eng.g, as_bool(stop(v)))
                hits.append((eng.g.rel(g0), v, s))
                acc[0] = OR(acc[0], AND(eng.g.rel(g0), s))
            a = simp(eng.g, acc[0])
            if a is True:
                return
            if a is False:
                inner()
                return
            g1, m = eng.g, len(eng.exits)
            if not eng.feasible(NOT(a)):
                return
            eng.under(NOT(a), inner)
            eng.rejoin(g1, m)
        self.comp_run(ge.node.generators, sub, visit)
        ge.done = IList()
        return hits


def entries_flat(tv):
    for x in tv:
        if isinstance(x, tuple):
            yield from entries_flat(x)
        else:
            yield x


def DICTGET(obj):
    for k in type(obj).__mro__:
        d = k.__dict__.get('__dict__')
        if isinstance(d, types.GetSetDescriptorType):
            return d.__get__(obj)
    return None


INTERP = Interp()
core.TRUTH_HOOK = INTERP.truth_hook
C.ITER_HOOK = INTERP.iter_hook
C.EQ_HOOK = INTERP.eq_hook
C.CONTAINS_HOOK = INTERP.contains_hook
