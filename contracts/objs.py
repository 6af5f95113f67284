"""Common set-up of the objective harnesses: an arbitrary model behind its contract.

The model has parameters P(0..np-1), independent variables X(0..nx-1) and components V(0..nc-1) (in the order
of the model), of which those with dep(V(c)) are the dependent variables; the others are interdependent.
Component c of a call is the array f(c, point), of the shape of its data, or a constant of shape (1,).
"""
from pyvc.lib import *
from symfit.core import objectives as O, models as MO, support as SU
import inspect, collections

X = z3.Function('X', I, Obj)
V = z3.Function('V', I, Obj)
Sg = z3.Function('sigma_of', Obj, Obj)
role = z3.Function('role', Obj, I)
dep = z3.Function('is_dependent', Obj, B)
hasdata = z3.Function('has_data', Obj, B)
const = z3.Function('is_constant', Obj, B)       # component of shape (1,)
grank = z3.Function('rank_of_shape', I, I)
skey = z3.Function('shape_key', Obj, I)
dim = z3.Function('dim', I, I, I)
fval = z3.Function('f', Obj, I, R)
jval = z3.Function('df', Obj, I, I, R)
hval = z3.Function('ddf', Obj, I, I, I, R)
yval = z3.Function('y', Obj, I, R)
sval = z3.Function('sigma', Obj, I, R)
xdat = z3.Function('xdata', Obj, I, R)


class ModelSetup:
    def __init__(self, E, cls=MO.Model, consts=True, shared_shape=False, dens='all', inter=True, flat=False):
        self.flat = flat        # all data one-dimensional (their lengths still differ)
        self.E, self.cls, self.inter, self.dens = E, cls, inter, dens
        self.P = Params(E)
        self.nx, self.nc = z3.Int('nx'), z3.Int('nc')
        E.assume(z3.And(self.nx >= 0, self.nc >= 1))
        for f in (X, V, Sg): E.declare_injective(f)
        i, o = z3.Int('$i'), z3.Const('$o', Obj)
        for f, r, x in ((self.P.fn, 0, i), (X, 1, i), (V, 2, i), (Sg, 3, o)):
            E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([x], role(f(x)) == r, patterns=[f(x)]))
        gs = z3.Function('gsize', I, I)
        k = z3.Int('$k')
        E.ax_by_fn.setdefault('gsize', []).append(z3.ForAll([k], z3.And(gs(k) >= 1, grank(k) >= 1, z3.Implies(grank(k) == 1, gs(k) == dim(k, z3.IntVal(0)))), patterns=[gs(k)]))
        E.ax_by_fn.setdefault('rank_of_shape', []).append(z3.ForAll([k], z3.And(grank(k) >= 1, z3.Implies(grank(k) == 1, gs(k) == dim(k, z3.IntVal(0)))), patterns=[grank(k)]))
        E.ax_by_fn.setdefault('dim', []).append(z3.ForAll([k], z3.Implies(grank(k) == 1, gs(k) == dim(k, z3.IntVal(0))), patterns=[dim(k, z3.IntVal(0))]))
        reserve(E, 'self', 'ordered_parameters', 'flatten_components')
        self.consts, self.shared = consts, shared_shape
        self.calls = []
        self.install()

    # ---- vocabulary
    def x(self, i): return SRef(X(i), Variable)
    def v(self, c): return SRef(V(c), Variable)
    def isdep(self, c): return dep(V(c)) if self.inter else True
    def key(self, v): return z3.Int('common_shape') if self.shared else skey(v)
    def size(self, v): return self.E.group_size(self.key(v))
    def deps(self, f=None): return seq(self.nc, f or self.v, self.isdep)
    def grp(self, v): return Axis(self.size(v)) if self.flat else Axis(self.size(v), self.key(v), grank(self.key(v)))
    def data(self, v, fn):
        k = self.E.idx('d')
        return STensor([self.grp(v)], [k], fn(v, k))
    def nparams(self): return self.P.n

    def component(self, v, level=0):
        """The array the model returns for component v (derivative level)."""
        E = self.E
        lead = [E.idx('p') for _ in range(level)]
        k = E.idx('d')
        fn = [fval, jval, hval][level]
        full = STensor([Axis(self.P.n)] * level + [self.grp(v)], lead + [k], fn(v, *lead, k))
        if not self.consts: return full
        one = STensor([Axis(self.P.n)] * level + [Axis(z3.IntVal(1))], lead + [E.idx('o')], fn(v, *lead, z3.IntVal(0)))
        return SIte(const(v), one, full)

    def shaped(self, v, level=0):
        """Specification: the component brought to the shape of its data (as it is when there is no data)."""
        E = self.E
        lead = [E.idx('p') for _ in range(level)]
        k = E.idx('d')
        fn = [fval, jval, hval][level]
        kk = ite(const(v), z3.IntVal(0), k) if self.consts else k
        return STensor([Axis(self.P.n)] * level + [self.grp(v)], lead + [k], fn(v, *lead, kk))

    # ---- the objects
    def install(self):
        E = self.E
        sigp = inspect.Signature.parameters.fget
        E.contracts[sigp] = lambda E, a, k, s: E.getf(a[0], 'parameters')
        c = self.cls
        for name, level in (('__call__', 0), ('eval_jacobian', 1), ('eval_hessian', 2)):
            f = getattr(c, name, None)
            if f is not None: E.contracts[f] = self.answer(name, level)
        E.trusted.add('symfit.core.models model calls (by contract C08/C09/C10)')

    def answer(self, name, level):
        def h(E, args, kwargs, star):
            self.calls.append((name, args[1:], kwargs, star))
            c = z3.Int('c!out%d' % E.newid())
            items = SSeq([Comp(self.nc, c, True, (self.v(c), self.component(V(c), level)))])
            out = SFun('ModelOutput', None, (), cls=None, attrs={})
            out.attrs['_asdict'] = SFun('_asdict', lambda E, f, a, k, s: E.new_dict([('loop', self.nc, c, True, self.v(c), self.component(V(c), level))], collections.OrderedDict))
            return out
        return h

    def sig(self):
        E = self.E
        i, j = E.idx('s'), E.idx('s')
        ops = [('loop', self.nx, i, True, SStr(pname(X(i))), None), ('loop', self.P.n, j, True, SStr(pname(self.P.fn(j))), None)]
        return E.new_obj(inspect.Signature, parameters=E.new_dict(ops, collections.OrderedDict))

    def model(self):
        E = self.E
        c = E.idx('c')
        dv = E.new_list(self.deps().segs)
        return E.new_obj(self.cls, _params=self.P.list(), dependent_vars=dv, independent_vars=E.new_list(seq(self.nx, self.x).segs),
                         sigmas=E.new_dict([('loop', self.nc, c, self.isdep(c), self.v(c), SRef(Sg(V(c)), Variable))]), __signature__=self.sig())

    def datadict(self):
        E = self.E
        i, c, d = E.idx('i'), E.idx('c'), E.idx('c')
        return E.new_dict([
            ('loop', self.nx, i, True, self.x(i), self.data(X(i), xdat)),
            ('loop', self.nc, c, self.isdep(c), self.v(c), SIte(hasdata(V(c)), self.data(V(c), yval), None)),
            ('loop', self.nc, d, self.isdep(d), SRef(Sg(V(d)), Variable), SIte(hasdata(V(d)), self.data(V(d), sval), None)),
        ], collections.OrderedDict)

    def objective(self, cls):
        E = self.E
        self.themodel = self.model()
        return E.call(cls, [self.themodel, self.datadict()])


# ---------------------------------------------------------------------- inspect.Signature
def signatures(E):
    """Contract of inspect.Signature for positional-or-keyword parameters without defaults: positional arguments go to
    the names in order, the others by name; a missing, unknown or doubly given argument is a TypeError."""
    K = inspect.Parameter.POSITIONAL_OR_KEYWORD
    def parameter(E, a, k, s):
        d = dict(zip(('name', 'kind'), a)); d.update(k)
        if s is not None or set(d) != {'name', 'kind'} or d['kind'] is not K: raise Unsupported('inspect.Parameter')
        return E.new_obj(inspect.Parameter, name=d['name'], kind=K)
    def signature(E, a, k, s):
        d = dict(zip(('parameters',), a)); d.update(k)
        ps = E.as_seq(E.iter_value(d['parameters']))
        return E.new_obj(inspect.Signature, **{'$names': E.map_seq(ps, lambda p: E.getf(p, 'name'))})
    def bind(E, a, k, s):
        from pyvc.engine import Star
        names = E.getf(a[0], '$names')
        segs = []
        for x in a[1:]: segs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
        given = SMap([('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else []))
        na = E.seq_len(SSeq(segs))
        if not E.branch(real(na) <= real(E.seq_len(names))): raise Raised(TypeError('too many positional arguments'))
        out = E.new_dict((), collections.OrderedDict)
        E.loop_over(E.zip_seqs([names, SSeq(segs)]), lambda p: E.setitem(out, E.getitem(p, 0), E.getitem(p, 1)))
        if not segs: rest = names
        elif E.proves_eq(real(na), real(E.seq_len(names))): rest = SSeq([])
        else: rest = E.seq_slice(names, na, None)
        def byname(nm):
            p, v = E.map_lookup(given, nm)
            if not E.branch(p): raise Raised(TypeError('missing a required argument'))
            E.setitem(out, nm, v)
        E.loop_over(rest, byname)
        def known(kv):
            if not E.branch(E.seq_contains(rest, kv[0])): raise Raised(TypeError('unexpected or repeated keyword argument'))
        E.loop_over(E.items(given), known)
        attrs = {'arguments': out, 'kwargs': E.new_dict(())}
        try: attrs['args'] = E.map_seq(E.items(E.as_map(out)), lambda kv: E.getitem(kv, 1))
        except Unsupported: pass
        return SFun('BoundArguments', None, (), attrs=attrs)
    E.contracts[inspect.Parameter.name.fget] = lambda E, a, k, s: E.getf(a[0], 'name')
    E.contracts[inspect.Parameter] = parameter
    E.contracts[inspect.Signature] = signature
    E.contracts[inspect.Signature.bind] = bind
    E.trusted.add('inspect.Signature')


# ---------------------------------------------------------------------- contract of the evaluation (proved in C03)
class Evaluations:
    """BaseObjective.__call__ / GradientObjective.eval_jacobian / HessianObjective.eval_hessian replaced by the
    contract proved for them in C03: the components of the dependent variables at the requested point, in order,
    shaped as their data.  The handler records the request so that the caller can be checked to ask for its own point."""
    def __init__(self, S, dataless='component'):
        E, self.S, self.asked = S.E, S, []
        for cls, name, level in ((O.BaseObjective, '__call__', 0), (O.GradientObjective, 'eval_jacobian', 1), (O.HessianObjective, 'eval_hessian', 2)):
            E.contracts[cls.__dict__[name]] = self.handler(name, level)

    def handler(self, name, level):
        S = self.S
        def h(E, args, kwargs, star):
            a, k = positional(('ordered_parameters',), args[1:], kwargs)
            form(len(a) == 1, name)
            self.asked.append((name, a, k, star))
            c = E.idx('c')
            body = S.component(V(c), level) if S.dens == 'none' else SIte(hasdata(V(c)), S.shaped(V(c), level), S.component(V(c), level))
            return E.new_list([Comp(S.nc, c, S.isdep(c), body)])
        return h

    def check(self, x, names):
        """Every evaluation was asked at the point x, nothing else passed."""
        E = self.S.E
        E.prove('the base evaluations requested', sorted({a[0] for a in self.asked}) == sorted(names))
        for nm, a, k, s in self.asked:
            ops = [('set', p, q) for p, q in k.items()] + (list(s.ops) if s is not None else [])
            E.prove_value(f'{nm}: the requested point', a[0], x)
            E.prove_value(f'{nm}: the requested named values', SMap(ops), SMap([]))
        self.asked.clear()


def total(S, term, cond):
    """Sum over the components c with cond(c) and their data points k of term(v, k, kk)."""
    E = S.E
    c, k = E.idx('c'), E.idx('k')
    v = V(c)
    kk = ite(const(v), z3.IntVal(0), k) if S.consts else k
    inner = E.sum_term(S.size(v), k, True, term(v, k, kk))
    return E.sum_term(S.nc, c, cond(c), inner)
