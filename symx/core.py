"""Symbolic values, guards and the path/solver engine.

Symbolic execution with state merging: the executor keeps a *guard* (conjunction of literals) under which the current
statement runs; writes are merged under that guard.  What cannot be merged is *decided*: the path forks and the harness
is re-executed with the recorded decisions (depth first), each fork adding its condition to the path condition.

Numbers are mathematical reals/integers extended with nan/+inf/-inf flags (floats are modelled as reals).
"""
import time
import math
import fractions
import numpy as np
import z3

Fraction = fractions.Fraction


class Dead(BaseException):
    """The current guard became unsatisfiable: unwind to the nearest construct that can continue."""


class Unsupported(Exception):
    """The executor met something it has no model for."""


class Inconclusive(Exception):
    """No verdict (solver gave up, bound exceeded)."""


class NonReal(Exception):
    pass


# ---------------------------------------------------------------- boolean helpers
T, F = True, False


def is_sym(e):
    return isinstance(e, z3.ExprRef)


class Info:
    """what is known about a boolean term: canonical wrapper, kind, children, negation, the literals below it"""
    __slots__ = ('e', 'id', 'kind', 'ch', 'neg', 'subs')


_INFO = {}
_MEMO = {}
_K = {z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or', z3.Z3_OP_NOT: 'not', z3.Z3_OP_TRUE: 'true', z3.Z3_OP_FALSE: 'false'}
SUBS_MAX = 300


def info(e, ch=None):
    try:
        return e._info
    except AttributeError:
        pass
    i = e.get_id()
    f = _INFO.get(i)
    if f is None:
        f = Info()
        f.e, f.id, f.neg = e, i, None
        f.kind = _K.get(z3.Z3_get_decl_kind(e.ctx.ref(), z3.Z3_get_app_decl(e.ctx.ref(), e.as_ast())), 'atom') if z3.is_app(e) else 'atom'
        f.ch = ()
        if f.kind in ('and', 'or', 'not'):
            f.ch = tuple(ch) if ch is not None else tuple(info(x) for x in e.children())
        if f.kind == 'not':
            f.neg = f.ch[0]
            if f.ch[0].neg is None:
                f.ch[0].neg = f
        subs = {i}
        for x in f.ch:
            if x.subs is None:
                subs = None
                break
            subs |= x.subs
            if len(subs) > SUBS_MAX:
                subs = None
                break
        f.subs = None if subs is None else frozenset(subs)
        _INFO[i] = f
    e._info = f
    return f


def neg(f):
    n = f.neg
    if n is None:
        n = info(z3.BoolRef(z3.Z3_mk_not(f.e.ctx.ref(), f.e.as_ast()), f.e.ctx))
        f.neg = n
        n.neg = f
    return n


def NOT(e):
    if e is True:
        return False
    if e is False:
        return True
    return neg(info(e)).e


def nary(es, conj):
    """flattened and/or"""
    absorbing, unit, same = (False, 'true', 'and') if conj else (True, 'false', 'or')
    zero = 'false' if conj else 'true'
    out, seen = [], set()
    stack = list(reversed(es))
    while stack:
        e = stack.pop()
        if e is True or e is False:
            if e is absorbing:
                return absorbing
            continue
        if type(e) is Info:
            f = e
        elif isinstance(e, (list, tuple)):
            stack.extend(reversed(e))
            continue
        else:
            f = info(e)
        k = f.kind
        if k == unit:
            continue
        if k == zero:
            return absorbing
        if k == same:
            stack.extend(reversed(f.ch))
            continue
        i = f.id
        if i in seen:
            continue
        n = f.neg
        if n is not None and n.id in seen:
            return absorbing
        seen.add(i)
        out.append(f)
    if len(out) > 1:
        # a literal decides the compound terms next to it: a & (~a | x) = a & x, a & (a | x) = a
        other = 'or' if conj else 'and'
        keep, changed = [], False
        for f in out:
            if f.kind == other:
                ch = f.ch
                if any(x.id in seen for x in ch):
                    changed = True
                    continue
                rest = [x for x in ch if not (x.neg is not None and x.neg.id in seen)]
                if len(rest) < len(ch):
                    changed = True
                    keep.append(nary(rest, not conj))
                    continue
            keep.append(f)
        if changed:
            return nary(keep, conj)
    if not out:
        return not absorbing
    if len(out) == 1:
        return out[0].e
    key = (conj, frozenset(seen))
    r = _MEMO.get(key)
    if r is None:
        ctx = out[0].e.ctx
        n = len(out)
        arr = (z3.Ast * n)(*[f.e.as_ast() for f in out])
        r = z3.BoolRef((z3.Z3_mk_and if conj else z3.Z3_mk_or)(ctx.ref(), n, arr), ctx)
        r = info(r, out).e
        _MEMO[key] = r
    return r


def AND(*es):
    return nary(es, True)


def OR(*es):
    return nary(es, False)


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return NOT(b)
    if b is False:
        return NOT(a)
    if a.eq(b):
        return True
    return a == b


def BITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (is_sym(a) and is_sym(b) and a.eq(b)):
        return a
    if a is True:
        return OR(c, b)
    if a is False:
        return AND(NOT(c), b)
    if b is True:
        return OR(NOT(c), a)
    if b is False:
        return AND(c, a)
    return z3.If(c, a, b)


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


# ---------------------------------------------------------------- guards
class Guard:
    """A conjunction of literals; None stands for the empty (false) guard."""
    __slots__ = ('conj', '_expr', '_memo', '_ids')

    def __init__(self, conj):
        self.conj = conj
        self._expr = None
        self._memo = {}
        self._ids = None

    @property
    def expr(self):
        if self._expr is None:
            self._expr = AND(*self.conj.values()) if self.conj else True
        return self._expr

    def add(self, e):
        """Conjunction with e; None when syntactically false."""
        e = simp(self, e)
        if e is True:
            return self
        if e is False:
            return None
        f = info(e)
        parts = f.ch if f.kind == 'and' else (f,)
        conj = dict(self.conj)
        for p in parts:
            if neg(p).id in conj:
                return None
            conj[p.id] = p.e
        return Guard(conj)

    def rel(self, base):
        """The literals of this guard beyond those of base, as one expression."""
        if base is self:
            return True
        b = base.conj
        return AND(*[e for i, e in self.conj.items() if i not in b])


TRUEG = Guard({})


def simp(g, e):
    """Simplify boolean e under guard g (syntactically)."""
    if e is True or e is False:
        return e
    c = g.conj
    f = info(e)
    if not c:
        return True if f.kind == 'true' else False if f.kind == 'false' else f.e
    if g._ids is None:
        g._ids = frozenset(c) | frozenset(neg(info(x)).id for x in c.values())
    return simp_rec(g, f, 0)


def simp_rec(g, f, depth):
    i = f.id
    c = g.conj
    if i in c:
        return True
    k = f.kind
    if k == 'atom':
        return False if f.neg is not None and f.neg.id in c else f.e
    if k == 'true':
        return True
    if k == 'false':
        return False
    r = g._memo.get(i)
    if r is not None:
        return r
    if f.neg is not None and f.neg.id in c:
        r = False
    elif f.subs is not None and f.subs.isdisjoint(g._ids):
        r = f.e
    elif depth > (12 if f.subs is not None else 3):
        return f.e
    elif k == 'not':
        x = simp_rec(g, f.ch[0], depth + 1)
        r = NOT(x)
    else:
        stop = k == 'or'
        out, changed = [], False
        r = None
        for x in f.ch:
            y = simp_rec(g, x, depth + 1)
            if y is stop:
                r = stop
                break
            if y is not x.e:
                changed = True
            out.append(y)
        if r is None:
            r = nary(out, not stop) if changed else f.e
    g._memo[i] = r
    return r


# ---------------------------------------------------------------- engine
ENG = None


def eng():
    return ENG


class Engine:
    def __init__(self, timeout_ms=30000, max_paths=20000, unwind=40, deadline=None):
        global ENG
        ENG = self
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.unwind = unwind
        self.deadline = deadline
        self.stats = dict(paths=0, queries=0, solver_s=0.0, obligations=0, discharged=0, forks=0, merges=0, unknown=0)
        self.reset_path([])

    # -- per path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.g = TRUEG
        self.exits = []
        self.cache = {}
        self.keep = []
        self.inputs = {}
        self.fresh_n = 0
        self.fn_terms = {}
        self.path_conds = []
        self.objg = {}
        for glob, name, old in reversed(getattr(self, 'globals_log', [])):
            if isinstance(glob, dict):
                if old is UNDEF:
                    glob.pop(name, None)
                else:
                    glob[name] = old
            elif old is UNDEF:
                delattr(glob, name)
            else:
                setattr(glob, name, old)
        self.globals_log = []

    def assume(self, e):
        """Global assumption of this path (only sound when made before the code it constrains)."""
        e = as_bool(e)
        if e is True:
            return
        e = zb(e)
        self.solver.add(e)
        self.path_conds.append(e)
        self.cache.clear()
        if not self.feasible(True):
            raise Dead()

    def axiom(self, e):
        if e is True:
            return
        self.solver.add(e)
        # axioms only restrict uninterpreted functions; cached 'unsat' stays valid, 'sat' may not
        self.cache = {k: v for k, v in self.cache.items() if v[0] is False}

    def _check(self, *es):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        t = time.time()
        self.stats['queries'] += 1
        self.solver.push()
        try:
            for e in es:
                self.solver.add(e)
            r = self.solver.check()
        finally:
            self.solver.pop()
            self.stats['solver_s'] += time.time() - t
        return r

    def feasible(self, e, under_g=True):
        """Can e hold here? (unknown counts as yes)"""
        if e is False:
            return False
        parts = []
        if under_g:
            e2 = simp(self.g, e) if is_sym(e) else e
            if e2 is False:
                return False
            parts = list(self.g.conj.values())
            e = e2
        if is_sym(e):
            parts = parts + [e]
        key = frozenset(info(p).id for p in parts)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        r = self._check(*parts)
        if r == z3.unknown:
            self.stats['unknown'] += 1
        res = r != z3.unsat
        self.cache[key] = (res, parts)
        return res

    def always(self, e):
        e = as_bool(e)
        if e is True:
            return True
        if e is False:
            return not self.feasible(True)
        return not self.feasible(NOT(e))

    def decide(self, e):
        """Fork on e (a boolean)."""
        e = as_bool(e)
        e = simp(self.g, e)
        if isinstance(e, bool):
            return e
        t, f = self.feasible(e), None
        if not t:
            if not self.feasible(True):
                raise Dead()
            return False
        f = self.feasible(NOT(e))
        if not f:
            return True
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = True
            self.pending.append(self.trace + [False])
            self.stats['forks'] += 1
        self.trace.append(d)
        lit = e if d else NOT(e)
        self.solver.add(lit)
        self.path_conds.append(lit)
        self.cache = {k: v for k, v in self.cache.items() if v[0] is False}
        if not self.feasible(True):
            raise Dead()
        return d

    def fix_guard(self):
        """Make the current guard part of the path condition (fork when it is not forced)."""
        for e in list(self.g.conj.values()):
            g, self.g = self.g, TRUEG
            try:
                d = self.decide(e)
            finally:
                self.g = g
            if not d:
                raise Dead()

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (base, self.fresh_n), sort)

    # -- control flow bookkeeping
    def exit(self, kind, target, payload=None):
        self.exits.append((kind, target, self.g, payload))
        raise Dead()

    def minus(self, g0, exits):
        """g0 without the guards of the given exits; None if nothing is left."""
        if not exits:
            return g0
        g = g0
        for ge in exits:
            r = ge.rel(g0)
            if r is True:
                return None
            g = g.add(NOT(r))
            if g is None:
                return None
        old, self.g = self.g, g
        try:
            if not self.feasible(True):
                return None
        finally:
            self.g = old
        return g

    def under(self, e, fn):
        """Run fn() under guard g & e. Returns (ok, value); exits are logged, self.g is restored to the entry guard."""
        g0 = self.g
        g1 = g0.add(e) if not isinstance(e, bool) else (g0 if e else None)
        if g1 is None:
            return False, None
        self.g = g1
        try:
            v = fn()
            return True, v
        except Dead:
            return False, None
        finally:
            self.g = g0

    def rejoin(self, g0, mark):
        """After a construct entered under g0: drop what left it since mark; Dead if nothing continues."""
        g = self.minus(g0, [x[2] for x in self.exits[mark:]])
        if g is None:
            self.g = g0
            raise Dead()
        self.g = g


def raise_(exc):
    """Raise exc under the current guard."""
    ENG.exits.append(('raise', None, ENG.g, exc))
    raise Dead()


def raise_if(cond, exc):
    """Raise exc in the states where cond holds; continue in the others."""
    cond = simp(ENG.g, as_bool(cond))
    if cond is False:
        return
    if not ENG.feasible(cond):
        return
    g = ENG.g
    ge = g if cond is True else g.add(cond)
    if ge is not None:
        ENG.exits.append(('raise', None, ge, exc))
    if cond is True:
        raise Dead()
    g2 = g.add(NOT(cond))
    if g2 is None:
        raise Dead()
    ENG.g = g2
    if not ENG.feasible(True):
        raise Dead()


# ---------------------------------------------------------------- symbolic booleans
def as_bool(v):
    """python bool or z3 Bool from a value"""
    if isinstance(v, bool):
        return v
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v
    return truth(v)


def mk_bool(e):
    if isinstance(e, (bool, SBool)):
        return e
    if type(e) is np.bool_:
        return bool(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(AND(self.e, as_bool(o)))
        return lift(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(OR(self.e, as_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(NOT(IFF(self.e, as_bool(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(NOT(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(IFF(self.e, as_bool(o)))
        if isinstance(o, (int, float, SNum)):
            return lift(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(NOT(as_bool(r)))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<sbool>'

    def __format__(self, spec):
        return '<sbool>'

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def all(self):
        return self

    any = all

    def _num(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'lt', 'le', 'gt', 'ge', 'pow', 'rpow',
            'neg', 'abs'):
    def _mk(op):
        def f(self, *a):
            return getattr(self._num(), op)(*a)
        return f
    setattr(SBool, '__%s__' % _op, _mk('__%s__' % _op))


# ---------------------------------------------------------------- symbolic numbers
def zreal(x):
    if x.is_int():
        return z3.ToReal(x)
    return x


def num_val(v):
    """z3 numeral of a finite python number"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    f = Fraction(repr(float(v))) if not isinstance(v, Fraction) else v
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def is_num(v):
    if type(v) in (int, float, bool):
        return True
    if isinstance(v, (SNum, SBool)):
        return True
    import numpy as np
    return isinstance(v, (np.floating, np.integer, np.bool_, int, float))


def lift(v):
    if type(v) is SNum:
        return v
    if type(v) is SBool:
        return v._num()
    if isinstance(v, bool):
        return SNum(z3.IntVal(int(v)))
    if isinstance(v, Fraction):
        return SNum(num_val(v))
    if hasattr(v, 'item') and not isinstance(v, (float, int)):
        v2 = v.item()
        if isinstance(v2, (int, float, bool)):
            r = lift(v2)
            return SNum(r.e, r.nan, r.pinf, r.ninf, True)
        v = v2
    if isinstance(v, int):
        return SNum(z3.IntVal(v))
    if isinstance(v, float):
        if math.isnan(v):
            return SNum(z3.RealVal(0), nan=True)
        if math.isinf(v):
            return SNum(z3.RealVal(0), pinf=bool(v > 0), ninf=bool(v < 0))
        return SNum(num_val(v), np=type(v) is not float)
    raise NonReal(repr(type(v)))


_const_cache = {}


def const_of(s):
    """the python number of a constant SNum, or None"""
    if s.nan is True:
        return math.nan
    if s.pinf is True:
        return math.inf
    if s.ninf is True:
        return -math.inf
    if s.nan is False and s.pinf is False and s.ninf is False:
        e = s.e
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            n, d = e.numerator_as_long(), e.denominator_as_long()
            return n / d
    return None


class SNum:
    """extended real; e is meaningful where no flag holds"""
    __slots__ = ('e', 'nan', 'pinf', 'ninf', 'np')

    def __init__(self, e, nan=False, pinf=False, ninf=False, np=False):
        self.e = e
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.np = np

    @property
    def __class__(self):
        return int if self.e.is_int() else float

    @property
    def finite(self):
        return AND(NOT(self.nan), NOT(self.pinf), NOT(self.ninf))

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    @property
    def is_int(self):
        return self.e.is_int()

    # -- conversions used by native code
    def __bool__(self):
        return ENG.decide(truth(self))

    def __hash__(self):
        return hash(str(self.e))

    def __repr__(self):
        return '<snum %s>' % (str(self.e)[:40].replace('\n', ' '))

    __str__ = __repr__

    def __format__(self, spec):
        return '<snum>'

    def __float__(self):
        raise Unsupported('float() of a symbolic number in native code')

    def __int__(self):
        raise Unsupported('int() of a symbolic number in native code')

    def __index__(self):
        return concretize_int(self)

    def item(self):
        return self

    # -- arithmetic
    def _bin(self, o):
        if type(o) is SNum:
            return o
        try:
            return lift(o)
        except NonReal:
            return None

    def __add__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_add(self, o)

    def __radd__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_add(o, self)

    def __sub__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_add(self, n_neg(o))

    def __rsub__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_add(o, n_neg(self))

    def __mul__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_div(self, o)

    def __rtruediv__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_div(o, self)

    def __floordiv__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_floordiv(self, o)

    def __rfloordiv__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_floordiv(o, self)

    def __mod__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_mod(self, o)

    def __rmod__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_mod(o, self)

    def __pow__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_pow(self, o)

    def __rpow__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else n_pow(o, self)

    def __neg__(self):
        return n_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return n_abs(self)

    def __lt__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else mk_bool(n_lt(self, o))

    def __gt__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else mk_bool(n_lt(o, self))

    def __le__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else mk_bool(n_le(self, o))

    def __ge__(self, o):
        o = self._bin(o)
        return NotImplemented if o is None else mk_bool(n_le(o, self))

    def __eq__(self, o):
        if not is_num(o):
            return False
        o = self._bin(o)
        return False if o is None else mk_bool(n_eq(self, o))

    def __ne__(self, o):
        if not is_num(o):
            return True
        o = self._bin(o)
        return True if o is None else mk_bool(NOT(n_eq(self, o)))

    def __round__(self, n=None):
        return n_round(self)

    def __floor__(self):
        return n_floor(self)

    def __ceil__(self):
        return n_neg(n_floor(n_neg(self)))

    def is_integer(self):
        if self.is_int:
            return True
        return mk_bool(AND(self.finite, z3.IsInt(self.e)))

    # numpy calls these on object arrays
    def log(self):
        return n_log(self)

    def exp(self):
        return n_exp(self)

    def sqrt(self):
        return n_sqrt(self)

    def conjugate(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum

    def all(self):
        return mk_bool(truth(self))

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    def tolist(self):
        return self


def coerce2(a, b):
    if a.e.is_int() and b.e.is_int():
        return a.e, b.e
    return zreal(a.e), zreal(b.e)


def zsimp(e):
    return e


def n_add(a, b):
    np = a.np or b.np
    x, y = coerce2(a, b)
    if z3.is_int_value(x) and x.as_long() == 0 or z3.is_rational_value(x) and x.numerator_as_long() == 0:
        e = y
    elif z3.is_int_value(y) and y.as_long() == 0 or z3.is_rational_value(y) and y.numerator_as_long() == 0:
        e = x
    elif (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
        e = z3.simplify(x + y)
    elif z3.is_div(x) and z3.is_div(y) and x.arg(1).eq(y.arg(1)):
        e = (x.arg(0) + y.arg(0)) / x.arg(1)    # where the denominator is zero the value is not a number anyway
    else:
        e = x + y
    if a.plain and b.plain:
        return SNum(e, np=np)
    nan = OR(a.nan, b.nan, AND(a.pinf, b.ninf), AND(a.ninf, b.pinf))
    pinf = AND(OR(a.pinf, b.pinf), NOT(nan))
    ninf = AND(OR(a.ninf, b.ninf), NOT(nan))
    return SNum(e, nan, pinf, ninf, np)


def n_neg(a):
    e = a.e
    if z3.is_int_value(e) or z3.is_rational_value(e):
        e = z3.simplify(-e)
    else:
        e = -e
    return SNum(e, a.nan, a.ninf, a.pinf, a.np)


def sgn(a):
    """(positive, negative, zero) conditions"""
    zero = z3.IntVal(0) if a.e.is_int() else z3.RealVal(0)
    fin = a.finite
    return (OR(a.pinf, AND(fin, cmp_(a.e > zero))), OR(a.ninf, AND(fin, cmp_(a.e < zero))),
            AND(fin, cmp_(a.e == zero)))


def cmp_(e):
    """fold comparisons of numerals"""
    ch = e.children()
    if len(ch) == 2 and all(z3.is_int_value(c) or z3.is_rational_value(c) for c in ch):
        s = z3.simplify(e)
        return z3.is_true(s)
    if len(ch) == 2 and ch[0].eq(ch[1]):
        return z3.is_eq(e) or z3.is_le(e) or z3.is_ge(e)
    return e


def n_mul(a, b):
    np = a.np or b.np
    x, y = coerce2(a, b)
    c = None
    for u, v in ((x, y), (y, x)):
        if z3.is_int_value(u) or z3.is_rational_value(u):
            if u.as_fraction() == 1 if z3.is_rational_value(u) else u.as_long() == 1:
                c = v
                break
            if (u.as_fraction() if z3.is_rational_value(u) else u.as_long()) == 0:
                c = u
                break
            if z3.is_int_value(v) or z3.is_rational_value(v):
                c = z3.simplify(u * v)
                break
    e = x * y if c is None else c
    if a.plain and b.plain:
        return SNum(e, np=np)
    ap, an, az = sgn(a)
    bp, bn, bz = sgn(b)
    ai, bi = OR(a.pinf, a.ninf), OR(b.pinf, b.ninf)
    nan = OR(a.nan, b.nan, AND(ai, bz), AND(bi, az))
    inf = OR(ai, bi)
    pos = OR(AND(ap, bp), AND(an, bn))
    pinf = AND(inf, NOT(nan), pos)
    ninf = AND(inf, NOT(nan), NOT(pos))
    return SNum(e, nan, pinf, ninf, np)


def n_div(a, b):
    np = a.np or b.np
    x, y = zreal(a.e), zreal(b.e)
    bp, bn, bz = sgn(b)
    if not np:
        raise_if(AND(bz), ZeroDivisionError('division by zero'))
        bz = simp(ENG.g, bz) if is_sym(bz) else bz
        if bz is not False and not ENG.feasible(bz):
            bz = False
    elif bz is not False and not ENG.feasible(bz):
        bz = False
    if z3.is_rational_value(y) and y.as_fraction() == 1:
        e = x
    elif z3.is_rational_value(y) and y.as_fraction() != 0:
        f = 1 / Fraction(y.as_fraction())
        e = z3.simplify(x * num_val(f)) if z3.is_rational_value(x) else x * num_val(f)
    elif z3.is_rational_value(y):
        e = z3.RealVal(0)
    elif z3.is_div(x) and z3.is_div(y) and x.arg(1).eq(y.arg(1)):
        e = x.arg(0) / y.arg(0)
    else:
        e = x / y
    if a.plain and b.plain and bz is False:
        return SNum(e, np=np)
    ap, an, az = sgn(a)
    ai, bi = OR(a.pinf, a.ninf), OR(b.pinf, b.ninf)
    nan = OR(a.nan, b.nan, AND(ai, bi), AND(az, bz))
    pos = OR(AND(ap, OR(bp, bz)), AND(an, bn))
    inf = OR(ai, AND(bz, NOT(az)))
    pinf = AND(inf, NOT(nan), pos)
    ninf = AND(inf, NOT(nan), NOT(pos))
    if bi is not False:
        e = z3.If(zb(bi), z3.RealVal(0), e)
    return SNum(e, nan, pinf, ninf, np)


def n_floor(a):
    if a.is_int:
        return a
    return SNum(z3.ToInt(a.e), a.nan, a.pinf, a.ninf, a.np)


def n_round(a):
    if a.is_int:
        return a
    f = z3.ToInt(a.e + z3.RealVal('1/2'))
    # ties go to the even neighbour
    e = z3.If(z3.And(z3.ToReal(f) == a.e + z3.RealVal('1/2'), f % 2 == 1), f - 1, f)
    return SNum(e, a.nan, a.pinf, a.ninf, a.np)


def n_floordiv(a, b):
    if a.is_int and b.is_int and a.plain and b.plain:
        raise_if(n_eq(b, lift(0)), ZeroDivisionError('integer division or modulo by zero'))
        q = z3.If(b.e > 0, a.e / b.e, (-a.e) / (-b.e))
        return SNum(q)
    return n_floor(n_div(a, b))


def n_mod(a, b):
    if a.is_int and b.is_int and a.plain and b.plain:
        q = n_floordiv(a, b)
        return SNum(a.e - b.e * q.e)
    q = n_floordiv(a, b)
    return n_add(a, n_neg(n_mul(b, q)))


def n_abs(a):
    e = a.e
    zero = z3.IntVal(0) if e.is_int() else z3.RealVal(0)
    if z3.is_int_value(e) or z3.is_rational_value(e):
        r = z3.simplify(z3.If(e < zero, -e, e))
    else:
        r = z3.If(e < zero, -e, e)
    return SNum(r, a.nan, OR(a.pinf, a.ninf), False, a.np)


def n_lt(a, b):
    x, y = coerce2(a, b)
    c = cmp_(x < y)
    if a.plain and b.plain:
        return c
    nn = AND(NOT(a.nan), NOT(b.nan))
    return AND(nn, OR(AND(a.ninf, NOT(b.ninf)), AND(b.pinf, NOT(a.pinf)), AND(a.finite, b.finite, c)))


def n_le(a, b):
    x, y = coerce2(a, b)
    c = cmp_(x <= y)
    if a.plain and b.plain:
        return c
    nn = AND(NOT(a.nan), NOT(b.nan))
    return AND(nn, OR(a.ninf, b.pinf, AND(a.finite, b.finite, c)))


def n_eq(a, b):
    x, y = coerce2(a, b)
    c = cmp_(x == y)
    if a.plain and b.plain:
        return c
    nn = AND(NOT(a.nan), NOT(b.nan))
    return AND(nn, OR(AND(a.pinf, b.pinf), AND(a.ninf, b.ninf), AND(a.finite, b.finite, c)))


def n_same(a, b):
    """equal, or both nan (used by assertions)"""
    return OR(n_eq(a, b), AND(a.nan, b.nan))


_R = z3.RealSort()
EXPF = z3.Function('EXP', _R, _R)
LOGF = z3.Function('LOG', _R, _R)


def _args(e, f):
    return z3.is_app(e) and e.decl().eq(f)


def _register(name, t, r):
    """record function term r = name(t) and relate it to earlier ones by monotonicity"""
    terms = ENG.fn_terms.setdefault(name, {})
    if t.get_id() in terms:
        return False
    for t2, r2, *cond in list(terms.values()):
        if name == 'EXP':
            ax = z3.And((t < t2) == (r < r2), (t == t2) == (r == r2))
            ENG.axiom(z3.Implies(cond[0], ax) if cond else ax)
        elif name == 'LOG':
            ENG.axiom(z3.Implies(z3.And(t > 0, t2 > 0), z3.And((t < t2) == (r < r2), (t == t2) == (r == r2))))
    terms[t.get_id()] = (t, r)
    return True


def exp_term(t):
    t = z3.simplify(t, som=False)
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        return z3.RealVal(1)
    if _args(t, LOGF):
        return t.arg(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if not ENG.feasible(c):
            return exp_term(b)
        if not ENG.feasible(z3.Not(c)):
            return exp_term(a)
        return z3.If(c, exp_term(a), exp_term(b))
    up, down, rest = _logs(t)
    if up or down:
        # exp(rest + log a - log b) = exp(rest) * a / b
        r = SNum(exp_term(z3.Sum(rest)) if rest else z3.RealVal(1), np=True)
        for x in up:
            r = n_mul(r, SNum(x, np=True))
        for x in down:
            r = n_div(r, SNum(x, np=True))
        return r.e
    r = EXPF(t)
    if _register('EXP', t, r):
        ENG.axiom(z3.And(r > 0, r >= 1 + t, (t == 0) == (r == 1), (t < 0) == (r < 1), LOGF(r) == t))
    return r


def _cancel(t):
    """a product or quotient without the factors it both multiplies and divides by, if they cannot be zero"""
    up, down, todo = [], [], [(t, True)]
    while todo:
        x, u = todo.pop()
        if z3.is_mul(x):
            todo.extend((c, u) for c in x.children())
        elif z3.is_div(x):
            todo.append((x.arg(0), u))
            todo.append((x.arg(1), not u))
        elif not (z3.is_rational_value(x) and x.as_fraction() == 1):
            (up if u else down).append(x)
    n = len(up)
    for x in list(down):
        for y in up:
            if y.eq(x) and not ENG.feasible(x == 0):
                up = [z for z in up if z is not y]
                down = [z for z in down if z is not x]
                break
    if len(up) == n:
        return t
    a = z3.Product(up) if len(up) > 1 else up[0] if up else z3.RealVal(1)
    return a / z3.Product(down) if len(down) > 1 else a / down[0] if down else a


def _logs(t):
    """the additive parts of t: arguments of logarithms added, of logarithms taken away, other terms"""
    up, down, rest = [], [], []
    for a in t.children() if z3.is_add(t) else [t]:
        if _args(a, LOGF):
            up.append(a.arg(0))
        elif z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).as_fraction() == -1 and _args(a.arg(1), LOGF):
            down.append(a.arg(1).arg(0))
        else:
            rest.append(a)
    return up, down, rest


def log_term(t):
    """t must be positive for the result to mean anything"""
    t = z3.simplify(t, som=False)
    if z3.is_rational_value(t) and t.as_fraction() == 1:
        return z3.RealVal(0)
    if z3.is_rational_value(t) and t.as_fraction() > 0:
        return num_val(math.log(t.as_fraction()))
    if _args(t, EXPF):
        return t.arg(0)
    up, down = factors(t)
    if len(up) + len(down) > 1 and all(always_positive(x) for x in up + down):
        # log(a b / c) = log a + log b - log c
        r = z3.RealVal(0)
        for x in up:
            r = r + log_term(x)
        for x in down:
            r = r - log_term(x)
        return z3.simplify(r)
    r = LOGF(t)
    if _register('LOG', t, r):
        if len(up) + len(down) > 1:
            parts = [log_term(x) for x in up] + [-log_term(x) for x in down]
            ENG.axiom(z3.Implies(z3.And([x > 0 for x in up + down]), r == z3.Sum(parts)))
        ENG.axiom(z3.Implies(t > 0, z3.And((t == 1) == (r == 0), (t > 1) == (r > 0), r <= t - 1, EXPF(r) == t)))
        # the inverse pair takes part in the monotonicity of EXP
        terms = ENG.fn_terms.setdefault('EXP', {})
        for t2, r2, *cond in list(terms.values()):
            if not cond:
                ENG.axiom(z3.Implies(t > 0, z3.And((r < t2) == (t < r2), (r == t2) == (t == r2))))
        terms['log', t.get_id()] = (r, t, t > 0)
    return r


def factors(t):
    """factors and divisors of t"""
    if z3.is_mul(t):
        up, down = [], []
        for x in t.children():
            u, d = factors(x)
            up, down = up + u, down + d
        return up, down
    if z3.is_div(t):
        u, d = factors(t.arg(0))
        u2, d2 = factors(t.arg(1))
        return u + d2, d + u2
    return [t], []


def always_positive(x):
    if z3.is_rational_value(x):
        return x.as_fraction() > 0
    return not ENG.feasible(z3.Not(x > 0))


def n_exp(a):
    if a.plain and const_of(a) is not None and const_of(a) == 0:
        return SNum(z3.RealVal(1), np=True)
    e = exp_term(zreal(a.e))
    if a.ninf is not False:
        e = z3.If(zb(a.ninf), z3.RealVal(0), e)
    return SNum(e, a.nan, a.pinf, False, True)


def n_log(a):
    pos, neg, zero = sgn(a)
    e = log_term(zreal(a.e))
    for c in ('pos',):
        pass
    nan = OR(a.nan, neg)
    ninf = zero
    if nan is not False and not ENG.feasible(nan):
        nan = False
    if ninf is not False and not ENG.feasible(ninf):
        ninf = False
    return SNum(e, nan, a.pinf, ninf, True)


def n_sqrt(a):
    pos, neg, zero = sgn(a)
    c = const_of(a)
    t = z3.simplify(zreal(a.e))
    terms = ENG.fn_terms.setdefault('SQRT', {})
    if t.get_id() in terms:
        s = terms[t.get_id()][1]
    else:
        s = ENG.fresh('sqrt', z3.RealSort())
        terms[t.get_id()] = (t, s)
        ENG.axiom(z3.Implies(t >= 0, z3.And(s >= 0, s * s == t)))
        ENG.axiom(z3.Implies(t > 0, s > 0))
    nan = OR(a.nan, neg)
    if nan is not False and not ENG.feasible(nan):
        nan = False
    return SNum(s, nan, a.pinf, False, True)


def n_pow(a, b):
    """a ** b"""
    k = const_of(b)
    np = a.np or b.np
    if k is not None and not (isinstance(k, float) and (math.isnan(k) or math.isinf(k))):
        if float(k) == int(k) and 0 <= int(k) <= 6:
            k = int(k)
            r = lift(1) if a.is_int else SNum(z3.RealVal(1), np=np)
            for _ in range(k):
                r = n_mul(r, a)
            if not b.is_int and r.is_int:
                r = SNum(zreal(r.e), r.nan, r.pinf, r.ninf, np)
            return r
        if float(k) == 0.5:
            return n_sqrt(a)
        if float(k) == int(k) and -6 <= int(k) < 0:
            return n_div(SNum(z3.RealVal(1), np=np), n_pow(a, lift(-int(k))))
    # positive base: exp(b log a)
    pos, neg, zero = sgn(a)
    if ENG.feasible(OR(neg, a.nan, a.pinf, NOT(b.finite))):
        raise Unsupported('power with a base that may be negative or with infinite operands')
    e = exp_term(_cancel(zreal(b.e) * log_term(zreal(a.e))))
    if zero is not False and ENG.feasible(zero):
        bp, bn, bz = sgn(b)
        e = z3.If(zb(zero), z3.If(zb(bz), z3.RealVal(1), z3.RealVal(0)), e)
        pinf = AND(zero, bn)
        return SNum(e, False, pinf if ENG.feasible(pinf) else False, False, np)
    return SNum(e, np=np)


def concretize_int(a):
    """fork until the integer value is a constant"""
    c = const_of(a)
    if c is not None:
        if isinstance(c, float) and c != int(c):
            raise TypeError('not an integer')
        return int(c)
    eng_ = ENG
    for _ in range(200):
        s = eng_.solver
        s.push()
        for p in eng_.g.conj.values():
            s.add(p)
        eng_.stats['queries'] += 1
        r = s.check()
        if r != z3.sat:
            s.pop()
            if r == z3.unsat:
                raise Dead()
            raise Inconclusive('cannot concretise an integer')
        v = s.model().eval(a.e, model_completion=True)
        s.pop()
        # the smallest value first keeps the enumeration deterministic across replays
        if z3.is_int_value(v):
            k = v.as_long()
        else:
            k = int(v.as_fraction())
        if eng_.decide(a.e == k):
            return k
    raise Inconclusive('integer with too many values')


# ---------------------------------------------------------------- unions
class Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


class Union:
    """guarded alternatives: exactly one guard holds (under the guard of the context that reads it)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % ', '.join(repr(v) for _, v in self.alts)

    def __format__(self, spec):
        return '<union>'

    def pick(self):
        """fork to a single alternative"""
        live = [(c, v) for c, v in self.alts if ENG.feasible(c)]
        for c, v in live[:-1]:
            if ENG.decide(c):
                return v
        return live[-1][1]

    # native code touching a union forks
    def __bool__(self):
        return bool(self.pick())

    def __hash__(self):
        return hash(self.pick())

    def __eq__(self, o):
        return self.pick() == o

    def __ne__(self, o):
        return self.pick() != o

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__') and k not in ('__name__',):
            raise AttributeError(k)
        return getattr(self.pick(), k)

    def __getitem__(self, k):
        return self.pick()[k]

    def __iter__(self):
        return iter(self.pick())

    def __len__(self):
        return len(self.pick())

    def __call__(self, *a, **k):
        return self.pick()(*a, **k)

    def __contains__(self, k):
        return k in self.pick()

    def __str__(self):
        return '<union>'

    def __float__(self):
        return float(self.pick())

    def __index__(self):
        return self.pick().__index__()


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'lt', 'le', 'gt', 'ge', 'pow', 'rpow'):
    def _mk2(op):
        def f(self, o):
            import operator
            v = self.pick()
            if op.startswith('__r') and op not in ('__round__',):
                return getattr(operator, '__' + op[3:])(o, v)
            return getattr(operator, op)(v, o)
        return f
    setattr(Union, '__%s__' % _op, _mk2('__%s__' % _op))


def _same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tb and ta in (str, int, float, bool, bytes):
        return a == b or (ta is float and math.isnan(a) and math.isnan(b))
    if ta is SNum and tb is SNum:
        return a.e.eq(b.e) and all(_beq(getattr(a, k), getattr(b, k)) for k in ('nan', 'pinf', 'ninf'))
    if ta is SBool and tb is SBool:
        return a.e.eq(b.e)
    return False


def _beq(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y
    return x.eq(y)


def merge(c, a, b):
    """the value that is a where c holds and b elsewhere"""
    if c is True:
        return a
    if c is False:
        return b
    if _same(a, b):
        return a
    ENG.stats['merges'] += 1
    ta, tb = type(a), type(b)
    if ta in (bool, SBool) and tb in (bool, SBool):
        return mk_bool(BITE(c, as_bool(a), as_bool(b)))
    if ta is not Union and tb is not Union and is_num(a) and is_num(b) \
            and not (ta in (bool, SBool)) and not (tb in (bool, SBool)):
        return n_ite(c, lift(a), lift(b))
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    out = []
    put(out, c, a)
    put(out, NOT(c), b)
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def put(out, cond, v):
    """add an alternative (conditions exclude each other)"""
    if cond is False:
        return
    if type(v) is Union:
        for c2, v2 in v.alts:
            put(out, AND(cond, c2), v2)
        return
    num = is_num(v) and type(v) not in (bool, SBool)
    bo = type(v) in (bool, SBool)
    for i, (c0, v0) in enumerate(out):
        if _same(v0, v):
            out[i] = (OR(c0, cond), v0)
            return
        if num and is_num(v0) and type(v0) not in (bool, SBool):
            out[i] = (OR(c0, cond), n_ite(cond, lift(v), lift(v0)))
            return
        if bo and type(v0) in (bool, SBool):
            out[i] = (OR(c0, cond), mk_bool(BITE(cond, as_bool(v), as_bool(v0))))
            return
    out.append((cond, v))


def n_ite(c, a, b):
    x, y = coerce2(a, b)
    if x.eq(y):
        e = x
    else:
        e = z3.If(c, x, y)
    if a.plain and b.plain:
        return SNum(e, np=a.np or b.np)
    return SNum(e, BITE(c, a.nan, b.nan), BITE(c, a.pinf, b.pinf), BITE(c, a.ninf, b.ninf), a.np or b.np)


def merge_all(alts):
    """alts: list of (cond, value), conds exclusive, and exhaustive in context"""
    alts = [(c, v) for c, v in alts if c is not False]
    if not alts:
        return None
    if len(alts) == 1:
        return alts[0][1]
    if len(alts) == 2:
        return merge(alts[0][0], alts[0][1], alts[1][1])
    if all(type(v) is tuple and len(v) == len(alts[0][1]) for _, v in alts):
        return tuple(merge_all([(c, v[i]) for c, v in alts]) for i in range(len(alts[0][1])))
    ENG.stats['merges'] += 1
    out = []
    for c, v in alts:
        put(out, c, v)
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def resolve(v):
    """simplify a value under the current guard (syntactically; unions also by the solver)"""
    g = ENG.g
    t = type(v)
    if t is SBool:
        return mk_bool(simp(g, v.e))
    if t is SNum:
        if not g.conj:
            return v
        e = v.e
        changed = False
        while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c = simp(g, e.arg(0))
            if c is True:
                e = e.arg(1)
            elif c is False:
                e = e.arg(2)
            else:
                break
            changed = True
        if v.plain:
            return SNum(e, np=v.np) if changed else v
        return SNum(e, *[simp(g, x) for x in (v.nan, v.pinf, v.ninf)], np=v.np)
    if t is Union:
        alts = []
        for c, x in v.alts:
            c2 = simp(g, c)
            if c2 is True:
                return resolve(x)
            if c2 is not False:
                alts.append((c, x))
        if len(alts) == 1:
            return resolve(alts[0][1])
        if len(alts) < len(v.alts):
            return Union(alts)
        return v
    return v


def truth(v):
    """truth value of v as python bool or z3 Bool (may run interpreted __bool__/__len__ via hook)"""
    t = type(v)
    if t is bool:
        return v
    if t is SBool:
        return v.e
    if t is SNum:
        if v.plain:
            return cmp_(v.e != (0 if v.e.is_int() else z3.RealVal(0))) if not (
                z3.is_int_value(v.e) or z3.is_rational_value(v.e)) else bool(const_of(v))
        zero = z3.IntVal(0) if v.e.is_int() else z3.RealVal(0)
        return OR(v.nan, v.pinf, v.ninf, cmp_(v.e != zero))
    if t is Union:
        return OR(*[AND(c, truth(x)) for c, x in v.alts])
    if hasattr(t, 'sx_truth'):
        return v.sx_truth()
    if v is UNDEF:
        return False
    if TRUTH_HOOK is not None:
        return TRUTH_HOOK(v)
    return bool(v)


TRUTH_HOOK = None


def lifted(fn, *vals):
    """apply fn to every combination of alternatives of unions among vals, merging the results"""
    for i, v in enumerate(vals):
        if type(v) is Union:
            return lift_union(v, lambda x: lifted(fn, *vals[:i], x, *vals[i + 1:]))
    return fn(*vals)


def lift_union(u, fn):
    E = ENG
    g0 = E.g
    mark = len(E.exits)
    res = []
    alts = u.alts
    for c, v in alts:
        c2 = simp(g0, c)
        if c2 is False:
            continue
        if c2 is not True and not E.feasible(c2):
            continue
        if v is UNDEF:
            E.under(c2, lambda: raise_(UnboundLocalError('variable referenced before assignment')))
            continue
        ok, r = E.under(c2, lambda: fn(v))
        if ok:
            res.append((c2, r))
        if c2 is True:
            break
    E.rejoin(g0, mark)
    if not res:
        raise Dead()
    return merge_all(res)
