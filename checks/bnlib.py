"""Networks with symbolic structure for the harnesses: real loci classes, or stubs with arbitrary functions."""
import math
from pydantic import ValidationError
from sims_pars.bayesnet.bn import BayesianNetwork
from sims_pars.bayesnet.loci import ExoValueLoci, ValueLoci, FunctionLoci, DistributionLoci, PseudoLoci, loci_from_json

EXO, VAL, FUN, RV, PSE = 0, 1, 2, 3, 4
# texts of definitions; the variables they depend on are given explicitly, so that they can be symbolic
DEFS = {VAL: 3, FUN: '1+1', RV: 'norm(0,1)', PSE: 'f(1)'}


def real_loci(kind, name, pas, tag=0):
    if kind == EXO:
        return ExoValueLoci(name)
    if kind == VAL:
        return ValueLoci(name, 3 + tag)
    if kind == FUN:
        return FunctionLoci(name, '1+%d' % tag, list(pas))
    if kind == RV:
        return DistributionLoci(name, 'norm(%d,1)' % tag, list(pas))
    return PseudoLoci(name, 'f(%d)' % tag, list(pas))


def has_parents(S, kind):
    return S.not_(S.or_(kind == EXO, kind == VAL))


class Shape:
    """what a network should be: which variables exist, their kinds, links and definitions"""

    def __init__(self, names):
        self.names = list(names)
        self.has = {n: False for n in names}
        self.kind = {n: EXO for n in names}
        self.link = {(a, b): False for a in names for b in names}
        self.loci = {n: None for n in names}

    def copy(self):
        s = Shape(self.names)
        s.has, s.kind, s.link, s.loci = dict(self.has), dict(self.kind), dict(self.link), dict(self.loci)
        return s


# ------------------------------------------------------------------ stubs: arbitrary definitions
class World:
    """the arbitrary functions behind the stub definitions, and how often each was used"""

    def __init__(self, S, names, prefix=''):
        self.S, self.names, self.prefix = S, list(names), prefix
        self.drawn = {n: 0 for n in names}
        self.evaluated = {n: 0 for n in names}
        self.flag = {n: 0 for n in names}
        self.invalid = {n: False for n in names}
        self.ints = {n: False for n in names}       # draws whole numbers
        self.link = {}
        self.kind = {}

    def args(self, name, pas):
        """the values of the parents of name in pas (0 for the others)"""
        r = []
        for p in self.names:
            if p == name:
                continue
            x = 0
            if self.link.get((p, name), False):
                x = pas[p]
                if x is None:
                    x = 17
            r.append(x)
        return r

    def value(self, name, pas):
        """the value of name at these parents: some function of exactly them (the drawn noise is part of the function)"""
        if self.ints[name]:
            return self.S.int(self.prefix + 'i_' + name, 0, 9)
        if self.kind[name] == VAL:
            return self.S.fn(self.prefix + 'v_' + name)
        return self.S.fn(self.prefix + 'f_' + name, *self.args(name, pas))

    def density(self, name, pas, own=None):
        """the log density of name: any function of its own and its parents' values"""
        if self.kind[name] == RV:
            f = self.flag[name]
            if f == 1:
                return math.nan
            if f == 2:
                return math.inf
            if f == 3:
                return -math.inf
            return self.S.fn(self.prefix + 'l_' + name, pas[name] if own is None else own, *self.args(name, pas))
        return 0

    def render(self, name, pas):
        self.drawn[name] = self.drawn[name] + 1
        return self.value(name, pas)

    def evaluate(self, name, pas, own):
        self.evaluated[name] = self.evaluated[name] + 1
        return self.density(name, pas, own)


class StubDist:
    def __init__(self, loci, pas):
        self.loci, self.pas = loci, pas

    def sample(self, n=1, **kwargs):
        return self.loci.world.render(self.loci.Name, self.pas)

    def logpdf(self, v):
        return self.loci.world.evaluate(self.loci.Name, self.pas, v)


class StubRV(DistributionLoci):
    def __init__(self, name, world, pas):
        self.Name = name
        self.world = world
        self.pas = list(pas)
        self.Func = name + '()'

    @property
    def Parents(self):
        return self.pas

    @property
    def Definition(self):
        return self.Func

    def get_distribution(self, pas=None):
        if self.world.invalid[self.Name]:
            raise ValidationError.from_exception_data('invalid parameters', [])
        return StubDist(self, pas)

    def to_json(self):
        return {'Name': self.Name, 'Type': 'Distribution', 'Def': self.Func, 'Parents': list(self.pas)}

    def __repr__(self):
        return self.Name


class StubExpr:
    def __init__(self, loci):
        self.loci = loci

    def execute(self, loc):
        return self.loci.world.render(self.loci.Name, loc)


class StubFun(FunctionLoci):
    def __init__(self, name, world, pas):
        self.Name = name
        self.world = world
        self.pas = list(pas)
        self.Func = StubExpr(self)

    @property
    def Parents(self):
        return self.pas

    @property
    def Definition(self):
        return self.Name

    def to_json(self):
        return {'Name': self.Name, 'Type': 'Function', 'Def': self.Name, 'Parents': list(self.pas)}

    def __repr__(self):
        return self.Name


class StubVal(ValueLoci):
    def __init__(self, name, world):
        self.Name = name
        self.world = world
        self.Value = world.S.fn(world.prefix + 'v_' + name)

    def render(self, pas=None):
        return self.world.render(self.Name, pas)

    def to_json(self):
        return {'Name': self.Name, 'Type': 'Value', 'Def': self.Name}

    def __repr__(self):
        return self.Name


def stub_network(S, names, order, kinds=(EXO, VAL, FUN, RV), prefix='', complete=True, name='N'):
    """an arbitrary network over all the names; its definitions are arbitrary functions of their parents"""
    S.hint(names)
    w = World(S, names, prefix)
    bn = BayesianNetwork(name)
    for n in order:
        k = S.choice(prefix + 'kind_' + n, kinds)
        w.kind[n] = k
        pas = S.subset(prefix + 'p_' + n, [m for m in names if names.index(m) < names.index(n)])
        hp = has_parents(S, k)
        for p in names:
            w.link[p, n] = S.and_(hp, p in pas)
        if k == EXO:
            lo = ExoValueLoci(n)
        elif k == VAL:
            lo = StubVal(n, w)
        elif k == FUN:
            lo = StubFun(n, w, pas)
        else:
            lo = StubRV(n, w, pas)
        bn.append_loci(lo)
    if complete:
        bn.complete()
    return bn, w


def values(S, names, prefix='x_'):
    return {n: S.real(prefix + n) for n in names}


def needed(S, w, targets, given):
    """{n: n is needed for the targets when the given are known}"""
    need = {}
    for n in reversed(w.names):
        need[n] = S.or_(n in targets, *[S.and_(w.link[n, m], need[m], S.not_(m in given)) for m in w.names if m in need])
    return need
