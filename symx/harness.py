"""Dual-mode harness: the same harness function is run symbolically (S = SymS) and natively (S = NatS)."""
import json
import math
import os
import random
import sys
import time
import traceback
import types
import numpy as np
import z3
from . import core
from .core import (AND, OR, NOT, SBool, SNum, Union, Dead, Unsupported, Inconclusive, Engine, mk_bool, as_bool, truth,
                   lift, is_num, n_eq, n_le, n_lt, merge_all, raise_, raise_if, const_of)
from . import containers as C
from .containers import IList, ISet, IDict, eq, entries
from . import interp
from .interp import INTERP
from . import models
from . import graph
from . import rand
from . import frame, stats
from .arr import SArr

TOL = 1e-7


class Violated(Exception):
    def __init__(self, label):
        Exception.__init__(self, label)
        self.label = label


class Vacuous(Exception):
    pass


# ------------------------------------------------------------------ symbolic side
class SymS:
    __sx__ = True
    symbolic = True

    def __init__(self, run):
        self.run = run

    @property
    def e(self):
        return core.ENG

    def _in(self, name, mk):
        d = self.e.inputs
        if name not in d:
            d[name] = mk()
        return d[name]

    # inputs
    def bool(self, name):
        return mk_bool(self._in(name, lambda: ('b', z3.Bool(name)))[1])

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        new = name not in self.e.inputs
        v = self._in(name, lambda: ('r', z3.Real(name)))[1]
        if new:
            for k, f in ((lo, lambda x: v >= x), (hi, lambda x: v <= x), (gt, lambda x: v > x), (lt, lambda x: v < x)):
                if k is not None:
                    self.e.assume(f(core.num_val(k)))
        return SNum(v)

    def npreal(self, name, **k):
        return SNum(self.real(name, **k).e, np=True)

    def int(self, name, lo, hi):
        new = name not in self.e.inputs
        v = self._in(name, lambda: ('i', z3.Int(name)))[1]
        if new:
            self.e.assume(z3.And(v >= lo, v <= hi))
        return SNum(v)

    def ext(self, name, nan=True, pinf=True, ninf=True):
        """extended real: may be nan or infinite"""
        new = name not in self.e.inputs

        def mk():
            return ('x', z3.Real(name), z3.Bool(name + '#nan') if nan else False,
                    z3.Bool(name + '#pinf') if pinf else False, z3.Bool(name + '#ninf') if ninf else False)
        _, v, a, b, c = self._in(name, mk)
        if new:
            fl = [x for x in (a, b, c) if x is not False]
            for i in range(len(fl)):
                for j in range(i):
                    self.e.assume(z3.Not(z3.And(fl[i], fl[j])))
        return SNum(v, a, b, c)

    def choice(self, name, options):
        """one of the given options"""
        opts = list(options)
        k = self.int(name, 0, len(opts) - 1)
        return merge_all([(core.cmp_(k.e == i), o) for i, o in enumerate(opts)])

    def bools(self, prefix, names):
        return IDict.of({n: (True, self.bool(prefix + str(n))) for n in names})

    def subset(self, prefix, names):
        """a symbolic subset of names, as a list in the given order"""
        return IList.of([(as_bool(self.bool(prefix + str(n))), n) for n in names])

    def fn(self, name, *args):
        """an arbitrary (uninterpreted) real function of real arguments"""
        F = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        flags = OR(*[NOT(lift(a).finite) for a in args])
        if flags is not False and self.e.feasible(flags):
            raise Unsupported('non-finite argument of an arbitrary function')
        if not args:
            return SNum(self.applied(z3.Real(name + '()')))
        return core.lifted(lambda *xs: SNum(self.applied(F(*[z3.simplify(core.zreal(lift(x).e)) for x in xs]))), *args)

    def applied(self, e):
        self.run.apps[e.get_id()] = e
        return e

    def pred(self, name, *args):
        if not args:
            return mk_bool(self.applied(z3.Bool(name + '()')))
        F = z3.Function(name, *([z3.RealSort()] * len(args)), z3.BoolSort())
        return mk_bool(self.applied(F(*[core.zreal(lift(a).e) for a in args])))

    # control
    def assume(self, c):
        c = as_bool(c)
        if c is True:
            return
        # assumptions must not depend on what already happened in other states
        g = self.e.g.expr
        self.e.assume(OR(NOT(g), c))

    def tame(self, c):
        """only replays are restricted to c (where floats are close to reals); the verdict is not"""
        c = as_bool(c)
        if core.is_sym(c):
            self.e.tame.append(OR(NOT(self.e.g.expr), c))

    def prove(self, c, label):
        self.run.prove(as_bool(c), label)

    def reach(self, label):
        r = self.run
        if label not in r.reached and self.e.feasible(True):
            r.reached.add(label)

    def hint(self, names):
        graph.HINT[:] = list(names)

    def concrete(self, v):
        return INTERP.concrete(v, 'harness')

    # comparisons with tolerance in native mode, exact here
    def close(self, a, b):
        """equal numbers (nan equals nan)"""
        return mk_bool(close(a, b))

    def leq(self, a, b):
        return a <= b

    def less(self, a, b):
        return a < b

    def positive(self, a):
        return a > 0

    def number(self, a):
        """a single number, not a sequence"""
        return mk_bool(OR(*[AND(c, is_num(v)) for c, v in (a.alts if type(a) is Union else [(True, a)])]))

    def finite(self, a):
        return mk_bool(core.lifted(lambda x: mk_bool(lift(x).finite), a) if type(a) is Union else lift(a).finite)

    def isnan(self, a):
        return mk_bool(lift(a).nan)

    def is_number(self, a):
        if type(a) is Union:
            return mk_bool(OR(*[AND(c, as_bool(self.is_number(v))) for c, v in a.alts]))
        return is_num(a)

    def and_(self, *cs):
        return mk_bool(AND(*[as_bool(c) for c in cs]))

    def or_(self, *cs):
        return mk_bool(OR(*[as_bool(c) for c in cs]))

    def not_(self, c):
        return mk_bool(NOT(as_bool(c)))

    def implies(self, a, b):
        return mk_bool(core.IMP(as_bool(a), as_bool(b)))

    def iff(self, a, b):
        return mk_bool(core.IFF(as_bool(a), as_bool(b)))

    def same(self, a, b):
        """structural equality, tolerant natively"""
        return mk_bool(eq(a, b))

    def is_(self, a, b):
        return mk_bool(C.is_(a, b))

    def draws(self, since=0):
        """values drawn (since a mark), by kind: list of records"""
        return IList.of([(r['g'], r) for r in core.ENG.draws[since:]])

    def mark_draws(self):
        return len(core.ENG.draws)

    def axiom(self, c, label=None):
        """a fact about the uninterpreted functions (true of the real ones)"""
        c = as_bool(c)
        if c is True:
            return
        self.e.axiom(core.zb(OR(NOT(self.e.g.expr), c)))

    def model_class(self, obj):
        return models.m_type(obj)


def number(a):
    c = core.const_of(a)
    if c is None and a.plain:
        e = z3.simplify(a.e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            c = core.const_of(SNum(e))
    return c


def close(a, b):
    if type(a) is Union:
        return OR(*[AND(c, close(v, b)) for c, v in a.alts])
    if type(b) is Union:
        return OR(*[AND(c, close(a, v)) for c, v in b.alts])
    if isinstance(a, SArr) or isinstance(b, SArr):
        x, y = SArr.make(a), SArr.make(b)
        if x.shape != y.shape:
            return False
        return AND(*[close(p, q) for p, q in zip(x.a.flat, y.a.flat)])
    if is_num(a) and is_num(b):
        a, b = lift(a), lift(b)
        x, y = number(a), number(b)
        if x is not None and y is not None:
            return bool(nclose(x, y))  # two numbers computed in floating point
        return core.n_same(a, b)
    return eq(a, b)


# ------------------------------------------------------------------ native side
_W = {}


def weight(name, i):
    key = (name, i)
    if key not in _W:
        r = random.Random('%s/%s' % (name, i))
        _W[key] = r.randint(101, 997) / 89.0
    return _W[key]


class NatS:
    symbolic = False

    def __init__(self, values, draws, variant=0):
        self.values = values
        self.queue = draws
        self.variant = variant

    def bool(self, name):
        return bool(self.values.get(name, False))

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = float(self.values.get(name, 0.0))
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        if (gt is not None and v <= gt) or (lt is not None and v >= lt):
            if gt is not None and lt is not None:
                v = (gt + lt) / 2
            else:
                v = gt + 1.0 if gt is not None else lt - 1.0
        return v

    def npreal(self, name, **k):
        return np.float64(self.real(name, **k))

    def int(self, name, lo, hi):
        return min(max(int(self.values.get(name, lo)), lo), hi)

    def ext(self, name, nan=True, pinf=True, ninf=True):
        if self.values.get(name + '#nan'):
            return float('nan')
        if self.values.get(name + '#pinf'):
            return float('inf')
        if self.values.get(name + '#ninf'):
            return -float('inf')
        return float(self.values.get(name, 0.0))

    def choice(self, name, options):
        return list(options)[self.int(name, 0, len(list(options)) - 1)]

    def bools(self, prefix, names):
        return {n: self.bool(prefix + str(n)) for n in names}

    def subset(self, prefix, names):
        return [n for n in names if self.bool(prefix + str(n))]

    def known(self, name, args):
        """the value the counterexample gives an arbitrary function at these arguments"""
        best = None
        for row in self.values.get('#' + name, ()):
            if len(row) == len(args) + 1:
                far = max([abs(float(a) - b) / max(1.0, abs(b)) for a, b in zip(args, row)] or [0])
                if far < 1e-9 and (best is None or far < best[0]):
                    best = far, row[-1]
        return None if best is None else best[1]

    def fn(self, name, *args):
        r = self.known(name, args)
        if r is not None:
            return float(r)
        r = weight(name, 'c') + self.variant
        for i, a in enumerate(args):
            r += weight(name, i) * float(a)
            r += 0.01 * math.sin(weight(name, i) * float(a))
        return r

    def pred(self, name, *args):
        r = self.known(name, args)
        if r is not None:
            return bool(r)
        return math.sin(self.fn(name, *args)) > 0

    def assume(self, c):
        if not c:
            raise Vacuous()

    def tame(self, c):
        """the models replayed are tame; the ones that need not be are tried last"""

    def prove(self, c, label):
        if not c:
            raise Violated(label)

    def reach(self, label):
        pass

    def hint(self, names):
        pass

    def concrete(self, v):
        return v

    def close(self, a, b):
        return nclose(a, b)

    def leq(self, a, b):
        return a <= b or nclose(a, b)

    def less(self, a, b):
        return a < b

    def positive(self, a):
        return a > 0

    def number(self, a):
        return isinstance(a, (int, float, np.number))

    def finite(self, a):
        return bool(np.isfinite(a))

    def isnan(self, a):
        return bool(np.isnan(a))

    def is_number(self, a):
        return isinstance(a, (int, float, np.number)) and not isinstance(a, bool)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def same(self, a, b):
        return nclose(a, b)

    def is_(self, a, b):
        return a is b

    def draws(self, since=0):
        return [r for r in rand.LOG[since:]]

    def mark_draws(self):
        return len(rand.LOG)

    def axiom(self, c, label=None):
        pass

    def model_class(self, obj):
        return type(obj)


def nclose(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(nclose(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(nclose(x, y) for x, y in zip(a, b))
    num = (int, float, np.number)
    if isinstance(a, num) and isinstance(b, num):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return nclose(a.item(), b)
    if isinstance(b, np.ndarray) and b.ndim == 0:
        return nclose(a, b.item())
    return bool(a == b)


# ------------------------------------------------------------------ a run of one harness
def model_value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError('model value %s' % v)


class Run:
    def __init__(self, fn, args=(), label='', timeout_ms=20000, unwind=40, deadline=None, native_fn=None, max_paths=4000):
        self.fn, self.args, self.label = fn, args, label
        self.eng = Engine(timeout_ms=timeout_ms, unwind=unwind, deadline=deadline)
        self.max_paths = max_paths
        self.reached = set()
        self.violations = []       # reproduced
        self.unreproduced = []
        self.inconclusive = []
        self.labels = {}
        self.validated = 0
        self.seen_values = set()
        self.apps = {}
        self.probing = False

    def try_native(self, m, what):
        """replay a model of a path; a failure of the real code is a violation whatever the encoding says"""
        try:
            values, draws = self.extract(m)
        except (ValueError, z3.Z3Exception):
            return
        key = repr((values, draws))
        if key in self.seen_values:
            return
        self.seen_values.add(key)
        ok, seen = self.replay(values, draws)
        if not ok and seen != 'held' and self.apps:
            # the arbitrary functions of the model instead
            try:
                values = dict(values, **self.tables(m))
            except ValueError:
                return
            ok, seen = self.replay(values, draws)
            ok = ok and self.probing
        if ok:
            self.violations.append(dict(label=what, seen=seen, values=values, draws=draws, harness=self.label))
        elif seen == 'held':
            self.validated += 1

    def validate(self, k=2):
        """after a path: a few models of it must also hold on the real code (checks the encoding)"""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.eng.solver.assertions())
        s.add(*self.eng.tame)
        bools = [v[1] for v in self.eng.inputs.values() if v[0] == 'b']
        reals = [v[1] for v in self.eng.inputs.values() if v[0] in 'rx']
        rnd = random.Random(len(self.seen_values))
        for i in range(k):
            s.push()
            for b in bools:
                s.push()
                s.add(b if rnd.random() < .6 else z3.Not(b))
                if s.check() != z3.sat:
                    s.pop()
            for v in rnd.sample(reals, min(len(reals), 6)):
                s.push()
                s.add(v == core.num_val(rnd.choice([rnd.randint(-24, 24) / 8, rnd.randint(1, 15) / 16])))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                self.try_native(s.model(), 'the real code on a model of a path')
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*self.eng.solver.assertions())
            s.add(*self.eng.tame)

    def probe(self):
        """the encoding gave no answer: replay models of what was encoded; only a reproduced failure is reported"""
        self.eng.deadline = None
        self.probing = True
        try:
            self.validate(12)
        except Exception:
            pass
        finally:
            self.probing = False

    # obligations
    def prove(self, c, label):
        eng = self.eng
        eng.stats['obligations'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        n = core.simp(eng.g, NOT(c))
        if n is False:
            eng.stats['discharged'] += 1
            return
        parts = list(eng.g.conj.values())
        if core.is_sym(n):
            parts.append(n)
        r = self.check(parts)
        if r == z3.unsat:
            eng.stats['discharged'] += 1
            return
        if r == z3.unknown:
            self.inconclusive.append('%s: solver gave no answer (%s)' % (label, self.reason))
            return
        self.counterexample(parts, label)

    def check(self, parts):
        """the verdict on an obligation, with a fresh solver when the incremental one gives up"""
        eng = self.eng
        r = eng._check(*parts)
        self.reason = ''
        if r == z3.unknown:
            self.reason = eng.solver.reason_unknown()
            for tac in ('default', 'qfnra'):
                s = z3.Solver() if tac == 'default' else z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', eng.timeout)
                s.add(*eng.solver.assertions())
                s.add(*parts)
                t = time.time()
                eng.stats['queries'] += 1
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                eng.stats['solver_s'] += time.time() - t
                if r != z3.unknown:
                    break
        return r

    def models(self, parts):
        """a few models of the counterexample, simple ones first"""
        eng = self.eng
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*eng.solver.assertions())
        s.add(*parts)
        reals = [v[1] for v in eng.inputs.values() if v[0] in 'rx'] + \
                [x for r in eng.draws for x in r['vars'] if x.sort() == z3.RealSort()]
        rnd = random.Random(7)
        seen = 0
        plans = [None, 'small', 'generic']
        if reals:
            plans += ['random'] * 12
        if eng.tame:
            plans[1:1] = ['untamed', 'half', 'double']
        first = None
        for p in plans:
            s.push()
            far = 0
            try:
                if p not in ('untamed', 'half', 'double'):
                    s.add(*eng.tame)
                if p == 'small':
                    for v in reals:
                        s.add(v <= 8, v >= -8)
                elif p == 'generic':
                    if len(reals) > 1:
                        s.add(z3.Distinct(*reals))
                    for v in reals:
                        s.add(v <= 30, v >= -30, v != 0, v != 1)
                elif p in ('half', 'double'):
                    # away from the boundary where the counterexample starts
                    for v in reals if first is not None else ():
                        x = first.eval(v, True)
                        s.push()
                        s.add(v == (x / 2 if p == 'half' else x * 2))
                        if s.check() != z3.sat:
                            s.pop()
                        else:
                            far += 1
                elif p == 'random':
                    fixed = 0
                    for v in rnd.sample(reals, len(reals)):
                        s.push()
                        k = rnd.choice([rnd.randint(-40, 40) / 8, rnd.randint(1, 15) / 16, rnd.randint(1, 40) / 4])
                        s.add(v == core.num_val(k))
                        if s.check() != z3.sat:
                            s.pop()
                        else:
                            fixed += 1
                            # keep the scope
                            continue
                    r = s.check()
                    if r == z3.sat:
                        yield s.model()
                    for _ in range(fixed):
                        s.pop()
                    continue
                if s.check() == z3.sat:
                    first = first or s.model()
                    yield s.model()
            finally:
                for _ in range(far):
                    s.pop()
                s.pop()

    def counterexample(self, parts, label):
        tried = 0
        last = None
        for m in self.models(parts):
            tried += 1
            try:
                values, draws = self.extract(m)
            except ValueError:
                continue
            ok, what = self.replay(values, draws)
            last = (values, draws, what)
            if not ok and self.apps and what not in ('timeout',):
                # once more with the arbitrary functions of the counterexample
                try:
                    values = dict(values, **self.tables(m))
                except ValueError:
                    continue
                ok, what = self.replay(values, draws)
                last = (values, draws, what)
            if ok:
                self.violations.append(dict(label=label, seen=what, values=values, draws=draws, harness=self.label))
                return
        self.unreproduced.append(dict(label=label, tried=tried, last=repr(last)[:600], harness=self.label))

    def tables(self, m):
        t = {}
        for e in self.apps.values():
            row = [model_value(m, x) for x in e.children()] + [model_value(m, e)]
            t.setdefault('#' + e.decl().name().replace('()', ''), []).append(row)
        return t

    def extract(self, m):
        values = {}
        for name, v in self.eng.inputs.items():
            values[name] = model_value(m, v[1])
            if v[0] == 'x':
                for k, f in zip(('#nan', '#pinf', '#ninf'), v[2:]):
                    values[name + k] = bool(f is not False and model_value(m, f))
        draws = []
        for r in self.eng.draws:
            if r['g'] is True or model_value(m, r['g']):
                draws.append(dict(kind=r['kind'], values=[model_value(m, x) for x in r['vars']]))
        return values, draws

    def replay(self, values, draws):
        return replay(self.fn, self.args, values, draws)

    # exploration
    def explore(self):
        todo = [[]]
        eng = self.eng
        while todo:
            prefix = todo.pop()
            eng.stats['paths'] += 1
            if eng.stats['paths'] > self.max_paths:
                self.inconclusive.append('more than %d paths' % self.max_paths)
                break
            if len(self.violations) >= 3 or len(self.unreproduced) >= 4:
                break
            eng.reset_path(prefix)
            eng.draws = []
            eng.tame = []
            self.apps = {}
            graph.HINT[:] = []
            INTERP.depth = 0
            INTERP.handling = []
            try:
                try:
                    INTERP.call(self.fn, (SymS(self),) + tuple(self.args))
                except Dead:
                    pass
                for kind, tgt, g, exc in list(eng.exits):
                    if kind != 'raise':
                        self.inconclusive.append('stray %s' % kind)
                        continue
                    eng.g = g
                    parts = list(g.conj.values())
                    eng.stats['obligations'] += 1
                    r = self.check(parts)
                    if r == z3.unsat:
                        eng.stats['discharged'] += 1
                    elif r == z3.unknown:
                        self.inconclusive.append('feasibility of exception %r' % (exc,))
                    else:
                        self.counterexample(parts, 'unexpected exception %s: %s' % (type(exc).__name__, str(exc)[:100]))
            except (Unsupported, Inconclusive, core.NonReal) as ex:
                if core.ENG.deadline and 'budget' in str(ex):
                    self.inconclusive.append(str(ex))
                    break
                self.inconclusive.append('%s: %s' % (type(ex).__name__, ex))
                if os.environ.get('SX_TRACE'):
                    traceback.print_exc()
                if len(self.inconclusive) > 3:
                    break
            except RecursionError:
                self.inconclusive.append('recursion')
                break
            todo.extend(eng.pending)
            if self.validated < 12:
                self.validate(2)
        if not self.inconclusive and not self.unreproduced:
            eng.reset_path([])
        return self

    def result(self):
        s = dict(self.eng.stats)
        s.update(label=self.label, reached=sorted(self.reached), obligations_by_label=self.labels)
        s['solver_s'] = round(s['solver_s'], 3)
        return s


class Timeout(Exception):
    pass


def replay(fn, args, values, draws):
    """run the harness natively against the real code; (violated?, what)"""
    import signal

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(20)
    try:
        with rand.patched(draws), np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(NatS(values, draws), *args)
        return False, 'held'
    except Violated as v:
        return True, v.label
    except Vacuous:
        return False, 'assumption failed'
    except rand.NoDraw as ex:
        return False, 'draws differ: %s' % ex
    except Timeout:
        return False, 'timeout'
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return True, 'unexpected %s: %s (%s)' % (type(ex).__name__, str(ex)[:200], where)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
