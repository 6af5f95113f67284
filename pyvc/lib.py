"""Shared specification vocabulary: symbolic parameters, data, objectives."""
import ast, time
from .engine import *
from .engine import Engine
from . import ext
import symfit
from symfit.core.argument import Parameter, Variable, Argument


class Spec:
    """An engine with the symbolic parameter list of a fit: parameters P(0..np-1), distinct, distinct names."""
    def __init__(self, E, tag='P'):
        self.E = E
        self.P = z3.Function(tag, I, Obj)
        E.declare_injective(self.P)
        self.np = z3.Int('n' + tag)
        E.assume(self.np >= 0)


pname = z3.Function('name', Obj, I)
pfixed = z3.Function('fixed', Obj, B)
pvalue = z3.Function('value', Obj, R)
phasmin = z3.Function('has_min', Obj, B)
phasmax = z3.Function('has_max', Obj, B)
pmin = z3.Function('min', Obj, R)
pmax = z3.Function('max', Obj, R)


def new_engine(timeout=8.0):
    E = Engine(timeout)
    E.declare_injective(pname)
    E.schema[Argument] = {'name': lambda E, r: SStr(pname(r.t)), '$str': lambda E, r: SStr(pname(r.t))}
    E.schema[Parameter] = {
        'fixed': lambda E, r: pfixed(r.t), 'value': lambda E, r: pvalue(r.t),
        'min': lambda E, r: ite(phasmin(r.t), pmin(r.t), None),
        'max': lambda E, r: ite(phasmax(r.t), pmax(r.t), None),
    }
    return E


def positional(names, args, kwargs):
    """The arguments of a call whose function names its first parameters so: by position as far as they go."""
    a, k = list(args), dict(kwargs)
    for n in names[len(a):]:
        if n not in k: break
        a.append(k.pop(n))
    return a, k


def form(ok, what):
    """The contract of `what` is written for calls of this form; another form is undecided, not wrong."""
    if not ok: raise Unsupported(f'a call of {what} in a form its contract does not cover')


def reserve(E, *names):
    """No symbol carries one of these names (they are keywords of the functions called)."""
    o = z3.Const('$o', Obj)
    E.ax_by_fn.setdefault('name', []).append(z3.ForAll([o], And(*[pname(o) != E.str_lit(n) for n in names]), patterns=[pname(o)]))


def comp(n, f, cond=None):
    i = z3.Int('i!%d' % comp.ctr); comp.ctr += 1
    return Comp(n, i, True if cond is None else cond(i), f(i))
comp.ctr = 0


def seq(n, f, cond=None):
    return SSeq([comp(n, f, cond)])


def vec(n, f):
    i = z3.Int('i!%d' % comp.ctr); comp.ctr += 1
    return STensor([Axis(n)], [i], f(i))


def mat(n, m, f):
    i = z3.Int('i!%d' % comp.ctr); comp.ctr += 1
    j = z3.Int('i!%d' % comp.ctr); comp.ctr += 1
    return STensor([Axis(n), Axis(m)], [i, j], f(i, j))


class Params:
    def __init__(self, E, tag='P'):
        self.E = E
        self.fn = z3.Function(tag, I, Obj)
        E.declare_injective(self.fn)
        self.n = z3.Int('n' + tag)
        E.assume(self.n >= 0)
    def at(self, i): return SRef(self.fn(i), Parameter)
    def free(self, i): return z3.Not(pfixed(self.fn(i)))
    def seq(self): return seq(self.n, self.at)
    def list(self): return self.E.new_list(self.seq().segs)
    def freeseq(self, f=None): return seq(self.n, f or self.at, self.free)
    def rank(self, i):
        """Number of free parameters before position i."""
        j = z3.Int('$r')
        return self.E.count(i, j, self.free(j))
    def nfree(self): return self.rank(self.n)


TASKS = {}

def task(prop, name, limit=240):
    def deco(fn):
        TASKS.setdefault(prop, {})[name] = dict(fn=fn, limit=limit)
        return fn
    return deco


def run(E, what, thunk, raises=(), returns=True):
    """Verify `thunk` on all paths: it must not raise (except `raises`); at least one path is reachable."""
    E.cur = what
    ps = E.explore(thunk)
    for p in ps:
        if p.kind == 'raise':
            ok = any(E.exc_isinstance(p.val, r) for r in raises)
            if not ok and getattr(p.val, 'partial', False): raise Unsupported(f'an attribute the contract knows nothing of: {p.val}'[:300])
            if not ok:
                E.record('no exception', False, 'path', 0, f'raises {p.val!r} when {z3.simplify(And(*p.pc)) if p.pc and isz(And(*p.pc)) else p.pc}'[:1500])
    n = sum(1 for p in ps if p.kind in ('normal', 'return'))
    E.record('some execution completes', n > 0 or not returns, 'path')
    E.covers[what] = n > 0 or not returns
    return ps
