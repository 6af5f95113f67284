"""C07: which data belongs to which variable, the sigmas that are made up, and whether sigmas are absolute."""
from contracts.objs import *
from symfit.core import fit as F
from pyvc.engine import Star
import ast, collections, inspect
import numpy as np


class Given:
    """Data as a user may give it: an array, a number, a list, ..."""


dat = z3.Function('data_given', Obj, Obj)                # by variable
isnone = z3.Function('given_as_None', Obj, B)
given = z3.Function('is_given', Obj, B)                  # by variable
listlike = z3.Function('has_no_power', Obj, B)           # x**2 is a TypeError
scalar = z3.Function('is_not_iterable', Obj, B)
asarray = z3.Function('as_array', Obj, Obj)
shape = z3.Function('shape_of', Obj, Obj)
ones = z3.Function('ones', Obj, Obj)
times = z3.Function('times', Obj, Obj, Obj)
EMPTY = inspect.Parameter.empty


def vals(v): return SIte(isnone(dat(v)), None, SRef(dat(v), Given))


def data_algebra(E):
    """What numpy and Python make of the data, by name only: arrays, numbers and lists are told apart by what they can do."""
    a, b = z3.Const('$a', Obj), z3.Const('$b', Obj)
    E.ax_by_fn.setdefault('as_array', []).append(z3.ForAll([a], z3.And(z3.Not(listlike(asarray(a))), z3.Implies(listlike(a), z3.Not(scalar(asarray(a))))), patterns=[asarray(a)]))
    E.ax_by_fn.setdefault('has_no_power', []).append(z3.ForAll([a], z3.Implies(listlike(a), z3.Not(scalar(a))), patterns=[listlike(a)]))
    E.ax_by_fn.setdefault('times', []).append(z3.ForAll([a, b], times(a, b) == times(b, a), patterns=[times(a, b)]))
    def binop(E, op, x, y):
        x, y = E.force(x), E.force(y)
        if op is ast.Pow and isinstance(x, SRef) and type(y) is int and y == 2:
            if E.branch(listlike(x.t)): raise Raised(TypeError('unsupported operand type(s) for **'))
            return SRef(z3.Function('square', Obj, Obj)(x.t), Given)
        if op is ast.Mult and isinstance(x, SRef) and isinstance(y, SRef): return SRef(times(x.t, y.t), Given)
        if op is ast.Mult and type(x) in (int, float) and x == 1 and isinstance(y, SRef): return y
        if op is ast.Mult and type(y) in (int, float) and y == 1 and isinstance(x, SRef): return x
        raise Unsupported('arithmetic of data')
    E.sym_binop = binop
    E.contracts[np.array] = lambda E, a, k, s: SRef(asarray(E.force(a[0]).t) if E.force(a[0]) is not None else z3.Const('array_of_None', Obj), Given)
    E.contracts[np.asarray] = lambda E, a, k, s: SRef(z3.If(listlike(E.force(a[0]).t), asarray(E.force(a[0]).t), E.force(a[0]).t), Given)
    E.contracts[np.ones] = lambda E, a, k, s: SRef(ones(E.force(a[0]).t), Given)
    E.contracts[np.ones_like] = lambda E, a, k, s: SRef(ones(shape(E.force(a[0]).t)), Given)
    def full(E, a, k, s):
        v = E.force(a[1])
        if not isinstance(v, SRef) or not E.implied(scalar(v.t)): raise Unsupported('numpy.full')
        return SRef(times(v.t, ones(E.force(a[0]).t)), Given)
    E.contracts[np.full] = full
    def it(E, r):
        def f(E, f, a, k, s):
            if E.branch(scalar(r.t)): raise Raised(TypeError('object is not iterable'))
            return SRef(z3.Const('iterator', Obj), object)
        return SFun('__iter__', f)
    class Shape: pass
    E.schema[Given] = {'shape': lambda E, r: SRef(shape(r.t), Shape), '__iter__': it}
    E.trusted.update(['numpy.array, numpy.ones, numpy arithmetic'])


More = z3.Function('variable_of_constraint', I, Obj)


def variables(S, E, more=None):
    """The groups of variables in the order of the signature."""
    i, c, d, e = E.idx('x'), E.idx('c'), E.idx('d'), E.idx('e')
    g = [(S.nx, i, True, X(i)), (S.nc, c, S.isdep(c), V(c)), (S.nc, d, S.isdep(d), Sg(V(d)))]
    if more is not None: g.append((more, e, True, More(e)))
    return g


parobj = z3.Function('signature_parameter', I, B, Obj)


def make_signature(cls):
    def t(E):
        S = ModelSetup(E, MO.Model, consts=False)
        K = inspect.Parameter.POSITIONAL_OR_KEYWORD
        n, d = z3.Int('$n'), z3.Bool('$d')
        pn, pd = z3.Function('parameter_name', Obj, I), z3.Function('parameter_is_optional', Obj, B)
        E.ax_by_fn.setdefault(parobj.name(), []).append(z3.ForAll([n, d], z3.And(pn(parobj(n, d)) == n, pd(parobj(n, d)) == d), patterns=[parobj(n, d)]))
        def parameter(E, a, k, s):
            d = dict(zip(('name', 'kind'), a)); d.update(k)
            E.prove('positional or by name', d['kind'] is K)
            de = d.get('default', EMPTY)
            opt = de.c if isinstance(de, SIte) and de.a is None and de.b is EMPTY else Not(de.c) if isinstance(de, SIte) and de.b is None and de.a is EMPTY else None
            if opt is None:
                de = E.force(de)
                if de is not None and de is not EMPTY: raise Unsupported('default of a parameter')
                opt = de is None
            return SRef(parobj(E.force(d['name']).t, tobool(opt) if isz(opt) else z3.BoolVal(opt)), inspect.Parameter)
        E.contracts[inspect.Parameter] = parameter
        E.schema[inspect.Parameter] = {'name': lambda E, r: SStr(pn(r.t)), 'default': lambda E, r: SIte(pd(r.t), None, EMPTY), 'kind': lambda E, r: K}
        E.contracts[inspect.Signature] = lambda E, a, k, s: E.new_obj(inspect.Signature, list=k.get('parameters', a[0] if a else None))
        def go():
            model = S.model()
            td = E.new_obj(cls, model=model, constraints=E.new_list())
            sig = E.call(cls._make_signature, [td])
            ps = E.as_seq(E.iter_value(E.getf(sig, 'list')))
            want = variables(S, E)
            E.prove_value('names: independent variables, dependent variables, sigmas', E.map_seq(ps, lambda p: E.getattr(p, 'name')), SSeq([Comp(n, i, c, SStr(pname(v))) for n, i, c, v in want]))
            E.prove_value('only sigmas may be left out', E.map_seq(ps, lambda p: E.getattr(p, 'default')), SSeq([Comp(n, i, c, None if z == 2 else EMPTY) for z, (n, i, c, v) in enumerate(want)]))
        run(E, f'{cls.__name__}._make_signature', go)
    return t


task('C07', 'signature')(make_signature(F.TakesData))
task('C07', 'signature-Fit')(make_signature(F.Fit))


def init(absolute, part):
    def t(E):
        S = ModelSetup(E, MO.Model, consts=False)
        data_algebra(E)
        E.declare_injective(dat)
        no = z3.Int('n_others')
        E.assume(no >= 0)
        E.declare_injective(More)
        k = z3.Int('$k')
        E.ax_by_fn.setdefault(More.name(), []).append(z3.ForAll([k], role(More(k)) == 4, patterns=[More(k)]))
        def go():
            model = S.model()
            groups = variables(S, E, no)
            arguments = E.new_dict([('loop', n, i, c if z < 2 else And(c, given(v)), SStr(pname(v)), vals(v)) for z, (n, i, c, v) in enumerate(groups)], collections.OrderedDict)
            params = variables(S, E, no)
            E.contracts[inspect.Parameter.name.fget] = lambda E, a, k, s: E.getf(a[0], 'name')
            E.contracts[inspect.Parameter.default.fget] = lambda E, a, k, s: E.getf(a[0], 'default')
            plist = SMap([('loop', n, i, c, SStr(pname(v)), SFun('Parameter', None, (v,), attrs={'name': SStr(pname(v)), 'default': None if z >= 2 else EMPTY})) for z, (n, i, c, v) in enumerate(params)])
            asked = []
            ordered, named = [z3.Real('first'), z3.Real('second')], {'other': z3.Real('other')}
            def bind(E, f, a, k, s):
                asked.append((tuple(a), SMap([('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else []))))
                if E.branch(z3.Bool('refused')): raise Raised(TypeError('missing a required argument'))
                bound = E.new_obj(inspect.BoundArguments, arguments=arguments)
                def defaults(E, f, a, k, s):
                    # in the order of the signature: what was given, and the default of what was not
                    E.setf(bound, 'arguments', E.new_dict([('loop', n, i, True, SStr(pname(v)), vals(v) if z < 2 else SIte(given(v), vals(v), None)) for z, (n, i, c, v) in enumerate(groups)], collections.OrderedDict))
                E.setf(bound, 'apply_defaults', SFun('apply_defaults', defaults))
                return bound
            sig = SFun('Signature', None, (), attrs={'bind': SFun('bind', bind), 'parameters': E.new_dict(plist.ops, collections.OrderedDict)})
            E.contracts[F.TakesData._make_signature] = lambda E, a, k, s: sig
            E.contracts[MO.Model] = lambda E, a, k, s: model
            kw = dict(named)
            if absolute != 'absent': kw['absolute_sigma'] = {'True': True, 'False': False, 'None': None}[absolute]
            try: td = E.call(F.TakesData, [model] + ordered, kw)
            except Raised as e:
                E.prove('an error only if the data do not fit the signature', z3.Bool('refused'))
                E.prove('... a TypeError, or a RuntimeWarning about derivatives', E.exc_isinstance(e.val, (TypeError, RuntimeWarning)))
                return
            E.prove('data that do not fit are refused', Not(z3.Bool('refused')))
            E.prove('everything is bound as given', len(asked) == 1)
            E.prove_value('... by position and by name', asked[0], (tuple(ordered), SMap([('set', k, v) for k, v in named.items()])))
            data = E.getattr(td, 'data')
            def final(v): return SRef(z3.If(listlike(dat(v)), asarray(dat(v)), dat(v)), Given)
            def sigma(v):
                y, g = dat(v), Sg(v)
                own = final(g)
                const = ones(shape(final(v).t))
                given_ = And(given(g), Not(isnone(dat(g))))
                full = SRef(z3.If(scalar(own.t), times(own.t, const), own.t), Given)
                return SIte(isnone(y), SIte(given_, own, None), SIte(given_, full, SRef(const, Given)))
            value = lambda v: SIte(isnone(dat(v)), None, final(v))
            w = E.idx('w')
            for what, n, cond, v, val in (('independent', S.nx, True, X(w), value(X(w))), ('dependent', S.nc, S.isdep(w), V(w), value(V(w))), ('sigma', S.nc, S.isdep(w), Sg(V(w)), sigma(V(w))),
                                          ('of a constraint', no, True, More(w), SIte(And(given(More(w)), Not(isnone(dat(More(w))))), final(More(w)), None))):
                if what != part or not E.branch(And(w >= 0, w < n, cond)): continue
                p, x = E.map_lookup(E.as_map(data), SRef(v, Variable) if what != 'of a constraint' else SStr(pname(v)))
                E.prove(f'{what}: there', p)
                E.prove_value(f'{what}: the data', x, val)
                if what != 'of a constraint':
                    p, x = E.map_lookup(E.as_map(data), SStr(pname(v)))
                    E.prove(f'{what}: not under the name', Not(p))
            if part != 'views': return
            i, c = E.idx('i'), E.idx('i')
            E.prove_value('independent_data', E.iter_value(E.call(E.getattr(E.getattr(td, 'independent_data'), 'items'), [])), SSeq([Comp(S.nx, i, True, (SRef(X(i), Variable), value(X(i))))]))
            E.prove_value('dependent_data', E.iter_value(E.call(E.getattr(E.getattr(td, 'dependent_data'), 'items'), [])), SSeq([Comp(S.nc, i, S.isdep(i), (SRef(V(i), Variable), value(V(i))))]))
            E.prove_value('sigma_data', E.iter_value(E.call(E.getattr(E.getattr(td, 'sigma_data'), 'items'), [])), SSeq([Comp(S.nc, i, S.isdep(i), (SRef(Sg(V(i)), Variable), sigma(V(i))))]))
            anysigma = E.exists(c, And(c >= 0, c < S.nc, S.isdep(c), given(Sg(V(c))), Not(isnone(dat(Sg(V(c)))))))
            E.prove_value('absolute_sigma', E.truth(E.getattr(td, 'absolute_sigma')), absolute == 'True' if absolute in ('True', 'False') else anysigma)
            E.prove_value('sigmas_provided', E.truth(E.getattr(td, 'sigmas_provided')), anysigma)
        run(E, f'TakesData(absolute_sigma {absolute}): {part}', go)
    return t


for a in ('absent', 'None', 'True', 'False'): task('C07', 'views, absolute_sigma ' + a)(init(a, 'views'))
for part in ('independent', 'dependent', 'sigma', 'of a constraint'): task('C07', part)(init('True', part))
