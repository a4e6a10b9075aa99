"""C09: expressions evaluate over exactly their declared variables."""
import math
import numpy as np
import scipy.special as sp
from sims_pars.util import parse_math_expression, parse_function, parse_parents, evaluate_function, ScriptException
from sims_pars.bayesnet.loci import FunctionLoci, DistributionLoci, parse_loci
from .common import Unit

BOUNDS = 'expressions of up to two (thorough: three) nested operations over up to three variables and numbers, every real value of the variables where the operations are defined'
OUTSIDE = 'deeper expressions; values where an operation is undefined (division by zero, logarithms of negative values); words as operators (and, or, not, if), strings, collections; functions added by the user'
ASSUMPTIONS = ['sin, cos, tan, erf, logit and expit are functions of their argument (their own values are those of numpy and scipy)']


def pick(c, a, b):
    """either value, without splitting into cases"""
    return a if c else b


# operation: (number of operands, text, value, condition of being defined, function name)
OPS = {
    '+': (2, '(%s+%s)', lambda x, y: x + y, None, ()),
    '-': (2, '(%s-%s)', lambda x, y: x - y, None, ()),
    '*': (2, '%s*%s', lambda x, y: x * y, None, ()),
    '/': (2, '(%s)/(%s)', lambda x, y: x / y, lambda x, y: y > 0.001, ()),
    'neg': (1, '(-%s)', lambda x: -x, None, ()),
    '2pow': (1, '(%s)**2', lambda x: x * x, None, ()),
    'exp': (1, 'exp(%s)', lambda x: np.exp(x), lambda x: x < 300, ('exp',)),
    'log': (1, 'log(%s)', lambda x: np.log(x), lambda x: x > 0.001, ('log',)),
    'sqrt': (1, 'sqrt(%s)', lambda x: np.sqrt(x), lambda x: x > 0.001, ('sqrt',)),
    'abs': (1, 'abs(%s)', lambda x: pick(x < 0, -x, x), None, ('abs',)),
    'ceil': (1, 'ceil(%s)', lambda x: -math.floor(-x), None, ('ceil',)),
    'floor': (1, 'floor(%s)', lambda x: math.floor(x), None, ('floor',)),
    'sin': (1, 'sin(%s)', lambda x: np.sin(x), None, ('sin',)),
    'cos': (1, 'cos(%s)', lambda x: np.cos(x), None, ('cos',)),
    'tan': (1, 'tan(%s)', lambda x: np.tan(x), None, ('tan',)),
    'erf': (1, 'erf(%s)', lambda x: math.erf(x), None, ('erf',)),
    'hypot': (2, 'hypot(%s, %s)', lambda x, y: np.hypot(x, y), None, ('hypot',)),
    'pow': (1, 'pow(%s, 2)', lambda x: x * x, None, ('pow',)),
    'logit': (1, 'logit(%s)', lambda x: sp.logit(x), lambda x: 0.001 < x < 0.999, ('logit',)),
    'expit': (1, 'expit(%s)', lambda x: sp.expit(x), lambda x: -300 < x < 300, ('expit',)),
    'ifelse<': (3, 'ifelse(%s<1, %s, %s)', lambda x, y, z: pick(x < 1, y, z), None, ('ifelse',)),
    'ifelse>': (3, 'ifelse(%s>=0.5,%s,%s)', lambda x, y, z: pick(x >= 0.5, y, z), None, ('ifelse',)),
    'step': (3, 'step(%s, 2, %s, %s)', lambda x, y, z: pick(x < 2, y, z), None, ('step',)),
    'step!': (2, 'step(%s, %s, 4, 3)', lambda x, y: pick(x < y, 4, 3), None, ('step',)),
    'max': (2, 'max(%s, %s)', lambda x, y: pick(x < y, y, x), None, ('max',)),
    'min': (2, 'min(%s,%s)', lambda x, y: pick(y < x, y, x), None, ('min',)),
}
# leaves given in turn to the operands, left to right
LEAVES = {'ab': ('a', 'b', 'c'), 'aab': ('a', 'a', 'b'), 'num': ('b', '10.5', 'a'), 'long': ('alpha', 'x1', 'exp_2')}


class Expr:
    """the text of an expression with the names it reads, the functions it calls and its value"""

    def __init__(self, shape, leaves):
        self.leaves, self.i, self.names, self.funs = leaves, 0, set(), set()
        self.text = self.write(shape)
        self.shape = shape

    def write(self, sh):
        if sh is None:
            s = self.leaves[self.i % len(self.leaves)]
            self.i += 1
            if s[0].isalpha():
                self.names.add(s)
            return s
        op, kids = sh
        self.funs.update(OPS[op][4])
        return OPS[op][1] % tuple([self.write(k) for k in kids])

    def value(self, S, loc):
        """the value, assuming every operation is defined"""
        self.i = 0
        return self.val(S, self.shape, loc)

    def val(self, S, sh, loc):
        if sh is None:
            s = self.leaves[self.i % len(self.leaves)]
            self.i += 1
            return loc[s] if s[0].isalpha() else float(s)
        op, kids = sh
        vs = [self.val(S, k, loc) for k in kids]
        if OPS[op][3] is not None:
            S.assume(OPS[op][3](*vs))
        return OPS[op][2](*vs)


def shapes(outer, inner):
    """`outer` with `inner` at each operand in turn (None: operands are leaves)"""
    n = OPS[outer][0]
    if inner is None:
        return [(outer, [None] * n)]
    return [(outer, [(inner, [None] * OPS[inner][0]) if j == i else None for j in range(n)]) for i in range(n)]


def possible(sh, leaves):
    """no operation is undefined on numbers alone"""
    at = [0]

    def go(t):
        if t is None:
            at[0] += 1
            s = leaves[(at[0] - 1) % len(leaves)]
            return None if s[0].isalpha() else float(s)
        vs = [go(k) for k in t[1]]
        op = OPS[t[0]]
        try:
            if op[3] is not None and not op[3](*vs):
                raise ArithmeticError
        except TypeError:
            pass
        if None in vs:
            return None
        return op[2](*vs)
    try:
        go(sh)
    except ArithmeticError:
        return False
    return True


def texts(todo):
    return [Expr(sh, LEAVES[lv]).text for sh, lv in todo]


def given(S, names, tag):
    loc = {n: S.real(n + tag) for n in names}
    for v in loc.values():
        S.tame(S.and_(-20 < v, v < 20))
    return loc


def whole(S, exprs):
    for i, (sh, lv) in enumerate(exprs):
        one(S, Expr(sh, LEAVES[lv]), '_%d_' % i)


def one(S, e, tag):
    """an expression of the right variables and value, through every way of evaluating it"""
    me = parse_math_expression(e.text)
    S.prove(S.same(set(me.Parents), e.names), 'declares the names it reads')
    v, f = parse_parents(e.text)
    S.prove(S.and_(S.same(set(v), e.names), S.same(set(f), e.funs)), 'separates variables from functions')
    names = sorted(e.names)
    a, b = given(S, names, tag + '0'), given(S, names, tag + '1')
    wa, wb = e.value(S, a), e.value(S, b)
    # unrelated variables, some named as the functions
    more = {'zz': S.real('zz'), 'exp': S.real('vexp'), 'max': S.real('vmax'), 'step': S.real('vstep'), 'abs': S.real('vabs')}
    full = dict(more)
    for n in names:
        full[n] = a[n]
    kept = dict(full)
    S.prove(S.close(me.execute(a), wa), 'the value of the expression')
    S.prove(S.close(me(b), wb), 'the value at other values')
    S.prove(S.close(me.execute(full), wa), 'nothing but the declared variables matters')
    S.prove(S.close(me(full), wa), 'nothing but the declared variables matters in a call')
    S.prove(S.same(full, kept), 'the given values are not changed')
    fl = FunctionLoci('y', e.text)
    S.prove(S.same(set(fl.Parents), e.names), 'a node declares the names it reads')
    S.prove(S.close(fl.render(full), wa), 'the value of a node')
    S.prove(S.close(fl(b), wb), 'the value of a node at other values')
    S.prove(S.same(full, kept), 'the given values are not changed by a node')
    S.prove(S.close(fl.evaluate(full), 0), 'a deterministic node has no density')
    full['y'] = S.real('old')
    fl.fill(full)
    S.prove(S.close(full['y'], wa), 'a node is filled with its value')
    kept['y'] = full['y']
    S.prove(S.same(full, kept), 'filling changes nothing else')
    S.reach('evaluated')
    S.reach(e.text)
    for n in names:
        part = {k: v for k, v in full.items() if k != n}
        try:
            fl.render(part)
            S.prove(False, 'a missing variable is an error')
        except KeyError:
            S.reach('missing')
    S.prove(me() == e.text, 'the text without variables')
    S.prove(me({'zz': more['zz']}) == e.text, 'the text with other variables only')


def script(S, exprs):
    """nodes defined by lines of a script"""
    for i, (sh, lv) in enumerate(exprs):
        e = Expr(sh, LEAVES[lv])
        loc = given(S, sorted(e.names), '_%d' % i)
        w = e.value(S, loc)
        for gap, note in ((' = ', ''), ('=', ' # note')):
            node, des = parse_loci('out' + gap + e.text + note)
            S.prove(node.Name == 'out' and S.same(set(node.Parents), e.names), 'a node of a line declares the names it reads')
            S.prove(S.close(node.render(loc), w), 'the value of a node of a line')
        S.reach(e.text)
    S.reach('lines')


def arguments(S, sets):
    """calls with positional and named arguments"""
    for i, (pos, named) in enumerate(sets):
        pos = [Expr(sh, LEAVES[lv]) for sh, lv in pos]
        named = [(k, Expr(sh, LEAVES[lv])) for k, (sh, lv) in named]
        text = 'fun(' + ', '.join([e.text for e in pos] + ['%s = %s' % (k, e.text) for k, e in named]) + ')'
        names = set().union(*[e.names for e in pos + [e for _, e in named]])
        pf = parse_function(text)
        S.prove(pf.Function == 'fun', 'the name of the call')
        S.prove(S.same(set(pf.Parents), names), 'a call declares the names its arguments read')
        S.prove(len(pf.Arguments) == len(pos) + len(named), 'every argument is kept')
        S.prove([a.get('key') for a in pf.Arguments] == [None] * len(pos) + [k for k, _ in named], 'in order, under their names')
        es = pos + [e for _, e in named]
        for e, a in zip(es, pf.Arguments):
            S.prove(S.same(set(a['value'].Parents), e.names), 'an argument declares the names it reads')
        for tag in '01':
            loc = given(S, sorted(names), '_%d_%s' % (i, tag))
            full = dict(loc)
            full['zz'] = S.real('zz')
            full['log'] = S.real('vlog')
            kept = dict(full)
            ws = [e.value(S, loc) for e in es]
            got = pf.get_arguments(full)
            S.prove(len(got) == len(es) and S.and_(*[S.close(g['value'], w) for g, w in zip(got, ws)]), 'arguments have their values')
            S.prove([g.get('key') for g in got] == [a.get('key') for a in pf.Arguments], 'values are under the names of the arguments')
            ef = evaluate_function(pf, full)
            S.prove(S.and_(*[S.close(g, w) for g, w in zip(ef.to_json()['Args'], ws)]) and ef.to_json()['Type'] == 'fun', 'an evaluated call has the values')
            bp = pf.to_blueprint('nm', full)
            S.prove(bp['Name'] == 'nm' and bp['Type'] == 'fun' and S.and_(*[S.close(g['value'], w) for g, w in zip(bp['Args'], ws)]), 'a blueprint has the values')
            S.prove(S.same(full, kept), 'the given values are not changed')
        if names:
            for n in sorted(names):
                part = {k: v for k, v in full.items() if k != n}
                try:
                    pf.get_arguments(part)
                    S.prove(False, 'a missing variable is an error')
                except NameError:
                    S.reach('missing')
            S.prove(pf.to_json()['Args'] == [e.text.replace(' ', '') if not e.names else a['value'].Expression for e, a in zip(es, pf.Arguments)]
                    or any(not e.names for e in es), 'the texts without variables')
        S.reach('calls')


def units(tier):
    q = tier == 'quick'
    us = []
    ops = list(OPS)
    for o in ops:
        todo = [(sh, lv) for lv in LEAVES for sh in shapes(o, None)]
        us.append(Unit(o, whole, (todo,), ['evaluated', 'missing'] + texts(todo), 'any values'))
    outer = ['+', '-', '*', '/', 'neg', 'exp', 'log', 'abs', 'ceil', 'pow', 'ifelse<', 'step', 'step!', 'max', 'sin']
    for o in outer:
        inner = ['+', '-', '/', 'exp', 'log', 'floor', 'ifelse>', 'step', 'neg', 'cos', 'min'] if q else ops
        for part in (inner[0::2], inner[1::2]) if q else [[i] for i in inner]:
            todo = [(sh, lv) for i in part for k, sh in enumerate(shapes(o, i)) for lv in ((('ab', 'num', 'aab', 'long')[(k + len(i)) % 4],) if q else ('ab', 'long') if i == 'logit' else ('ab', 'num', 'long'))]
            todo = [(sh, lv) for sh, lv in todo if possible(sh, LEAVES[lv])]
            us.append(Unit('%s of %s' % (o, ' '.join(part)), whole, (todo,), ['evaluated'] + texts(todo), 'any values'))
    for o in ('+', 'exp', 'ifelse<', 'step', '/'):
        todo = [(sh, lv) for lv in LEAVES for i in (None, 'log', '-', 'ifelse>') for sh in shapes(o, i)]
        us.append(Unit('lines with %s' % o, script, (todo,), ['lines'] + texts(todo), 'any values'))
    L = [(None, 'ab'), (None, 'num')]
    for o in ('+', '/', 'exp', 'ifelse<', 'neg', 'step'):
        A, B = [(sh, 'ab') for sh in shapes(o, None)][0], [(sh, 'long') for sh in shapes(o, 'log')][0]
        C = [(sh, 'num') for sh in shapes('*', o)][-1]
        sets = [([A], []), ([A, B], []), ([], [('k', A)]), ([], [('k', B), ('a', A)]), ([A], [('k', C)]), ([C, B], [('key', A), ('a', C)]), ([L[0], A], [('b', L[0])])]
        us.append(Unit('calls with %s' % o, arguments, (sets,), ['calls', 'missing'], 'any values'))
    return us
