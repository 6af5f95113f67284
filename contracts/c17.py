"""C17: what pickle does with each kind of object: the state its class hands out, put into a fresh object the way its class says."""
import pickle, types
from contracts.minim import *
from contracts import c19
from pyvc.engine import Rec
from pyvc.vals import MISSING
from symfit.core import argument as AR
import collections, sympy

NONE = object()


def roundtrip(E, obj):
    """The pickle protocol (copyreg, object.__reduce_ex__ with protocol >= 2): a new object of the class, made by __new__ with
    the arguments of __getnewargs_ex__ / __getnewargs__, then the state handed to __setstate__, or to its __dict__.
    Values inside the state are restored by their own classes (assumed to come back equal: their own contracts)."""
    E.trusted.add('the pickle protocol (object.__reduce_ex__, copyreg), values inside the state restored by their own classes')
    cls = E.cls_of(obj)
    red = getattr(cls, '__reduce__')
    if red is not object.__reduce__: raise Unsupported('__reduce__')
    if cls.__reduce_ex__ not in (object.__reduce_ex__, sympy.Basic.__reduce_ex__): raise Unsupported('__reduce_ex__')
    args, kw = [], {}
    if hasattr(cls, '__getnewargs_ex__'):
        if cls.__getnewargs_ex__ is sympy.Symbol.__getnewargs_ex__: args, kw = [E.getattr(obj, 'name')], {'real': True}
        else:
            a, k = E.force(E.call(E.getattr(obj, '__getnewargs_ex__'), []))
            args, kw = list(a), E.as_map(k)
    elif hasattr(cls, '__getnewargs__'):
        args = list(E.force(E.call(E.getattr(obj, '__getnewargs__'), [])))
    new = cls.__new__
    if new is object.__new__ or getattr(new, '__objclass__', None) is object:
        new = E.new_obj(cls)
    else: new = E.call(new, [cls] + args, kw)
    if cls.__getstate__ is object.__getstate__: state = E.new_dict([('set', k, v) for k, v in E.rec(obj).f.items()])
    else: state = E.call(E.getattr(obj, '__getstate__'), [])
    if state is None: return new
    if hasattr(cls, '__setstate__'): E.call(E.getattr(new, '__setstate__'), [state])
    else: E.call(E.getattr(E.getattr(new, '__dict__'), 'update'), [state])
    return new


def fields(E, obj): return {k: v for k, v in E.rec(obj).f.items() if v is not MISSING}


# ---------------------------------------------------------------------- symbols
def symbol(cls):
    def t(E):
        made = []
        def symnew(E, a, k, s):
            made.append((a[1], dict(k)))
            return E.new_obj(E.force(a[0]), name=a[1])
        E.contracts[sympy.Symbol.__new__] = symnew
        E.contracts[sympy.Symbol.__init__] = lambda E, a, k, s: None
        E.contracts[getattr(sympy.Basic, '__getstate__')] = lambda E, a, k, s: None
        for c in (sympy.Symbol, sympy.Basic):
            E.contracts[c.__setstate__] = lambda E, a, k, s: E.call(AR.Argument.__setstate__, a)
        E.trusted.add('sympy Symbol.__new__, __getnewargs_ex__ (the name and the assumptions), __getstate__ (nothing)')
        nothing = lambda nm: SIte(z3.Bool('has_' + nm), z3.Real(nm), None)
        def go():
            attrs = dict(value=z3.Real('value'), min=nothing('min'), max=nothing('max'), fixed=z3.Bool('fixed')) if issubclass(cls, AR.Parameter) else {}
            E.assume(z3.Int('nm') != E.str_lit(''))      # no symbol has an empty name
            E.statics[AR.Argument, '_argument_indices'] = E.new_dict([('set', cls, z3.Int('n_created'))], collections.defaultdict)
            obj = E.new_obj(cls, name=SStr(z3.Int('nm')), _argument_index=z3.Int('argument_index'), **attrs)
            new = obj
            for _ in range(2):
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is cls)
                E.prove_value('the name', E.getattr(new, 'name'), SStr(z3.Int('nm')))
                E.prove('the assumptions', made.pop()[1] == {'real': True} and not made)
                for k, v in attrs.items(): E.prove_value(k, E.getattr(new, k), v)
                for k, v in attrs.items(): E.prove_value(f'{k} of the original', E.getattr(obj, k), v)
        run(E, f'{cls.__name__}: pickled and restored, twice', go)
    return t


for c in (AR.Parameter, AR.Variable): task('C17', c.__name__)(symbol(c))


# ---------------------------------------------------------------------- outputs of models
@task('C17', 'ModelOutput')
def _(E):
    V, val = z3.Function('variable', I, Obj), z3.Function('array', I, Obj)
    E.declare_injective(V)
    n = z3.Int('n_components')
    E.assume(n >= 0)
    reserve(E, *[k for k in dir(MO.ModelOutput)], 'variables', 'output', 'output_dict', 'variable_names')
    i, j = E.idx('i'), E.idx('j')
    def go():
        vs = E.new_list([comp(n, lambda k: SRef(V(k), AR.Variable))])
        out = E.new_list([comp(n, lambda k: SRef(val(k), object))])
        obj = E.call(MO.ModelOutput, [vs, out])
        for _ in range(2):
            obj = roundtrip(E, obj)
            E.prove('of the same class', E.cls_of(obj) is MO.ModelOutput)
            E.prove_value('the components', E.iter_value(E.getattr(obj, 'variables')), SSeq([Comp(n, i, True, SRef(V(i), AR.Variable))]))
            E.prove_value('the arrays', E.iter_value(E.getattr(obj, 'output')), SSeq([Comp(n, i, True, SRef(val(i), object))]))
            E.prove_value('as a dictionary', E.method(obj, '_asdict'), E.new_dict([('loop', n, j, True, SRef(V(j), AR.Variable), SRef(val(j), object))], collections.OrderedDict))
            w = E.idx('w')
            if E.branch(And(w >= 0, w < n)):
                E.prove_value('by position', E.getitem(obj, w), SRef(val(w), object))
                E.prove_value('by name', E.call(getattr, [obj, SStr(pname(V(w)))]), SRef(val(w), object))
    run(E, 'ModelOutput: pickled and restored, twice', go)


# ---------------------------------------------------------------------- models: as under C19
for c in (MO.CallableModel, MO.CallableNumericalModel, MO.GradientModel, MO.Model, MO.ODEModel):
    task('C17', c.__name__)(c19.pickled(c))


# ---------------------------------------------------------------------- minimizers
from contracts.c11 import CO, CM, iseq, cg, chess, x_in, picked
given_guess = z3.Function('guess_given', I, R)


def observe(E, m, P, x, ncon):
    """What a minimizer shows: its public attributes, the functions it hands to scipy (as values at x), the constraints as scipy gets them."""
    out = {}
    f = fields(E, m)
    for k in f:
        if k.startswith('_') or k.startswith('wrapped_'): continue
        out[k] = f[k]
    for k in ('bounds', 'initial_guesses'):
        if hasattr(E.cls_of(m), k): out[k] = E.getattr(m, k)
    for k in ('wrapped_jacobian', 'wrapped_hessian'):
        if k in f: out[k + '(x)'] = None if E.force(f[k]) is None else E.call(f[k], [x])
    if 'wrapped_constraints' in f:
        cs = f['wrapped_constraints']
        out['number of constraints for scipy'] = E.seq_len(E.as_seq(E.iter_value(cs)))
        w = z3.Int('some_constraint')
        if E.branch(And(w >= 0, w < ncon)):
            con = E.force(E.getitem(cs, w))
            if E.cls_of(con) is so.NonlinearConstraint: g = {k: v for k, v in fields(E, con).items()}
            else: g = {k: E.map_lookup(E.as_map(con), k) for k in ('type', 'fun', 'jac', 'hess')}; g = {k: v for k, (p, v) in g.items() if p is True}
            for k in g:
                v = E.force(g[k])
                if k in ('jac', 'hess') and v is not None:
                    u = z3.Function('multiplier', I, R)
                    v = E.call(v, [x, vec(z3.IntVal(1), lambda i: u(i))] if k == 'hess' and E.cls_of(con) is so.NonlinearConstraint else [x])
                out[f'a constraint for scipy: {k}'] = v
    return out


def compare(E, a, b, skip=()):
    E.prove('the same attributes', set(a) == set(b))
    for k in a:
        if k in b and k not in skip: E.prove_value(k, b[k], a[k])


class Custom: pass


def restored(cls, derivs, custom=False, guess=False, style='objectives'):
    def t(E):
        con = issubclass(cls, M.ConstrainedMinimizer)
        S = Setup(E, cls, derivs=derivs and not custom)
        P = S.P
        n = z3.Int('n_constraints')
        E.assume(n >= 0)
        E.assume(P.nfree() >= 1)
        reserve(E, 'self')
        E.declare_injective(CO); E.declare_injective(CM)
        E.schema[MO.Model] = {'constraint_type': lambda E, r: SIte(iseq(r.t), sympy.Eq, sympy.Ge), 'params': lambda E, r: P.list()}
        E.schema[O.MinimizeModel] = {'model': lambda E, r: SRef(CM(r.t), MO.Model)}
        if style != 'objectives':
            made, as_model = z3.Function('objective_of', Obj, Obj), z3.Function('as_constraint', Obj, Obj)
            E.declare_injective(made)
            o = z3.Const('$o', Obj)
            E.ax_by_fn.setdefault('objective_of', []).append(z3.ForAll([o], CM(made(o)) == o, patterns=[made(o)]))
            E.schema[sympy.Rel] = {'$isinstance': lambda E, r, c: issubclass(sympy.GreaterThan, c)}
            E.contracts[O.MinimizeModel] = lambda E, a, k, s: SRef(made(E.force((list(a) + [k.get('model')])[0]).t), O.MinimizeModel)
            E.contracts[MO.BaseModel.as_constraint.__func__] = lambda E, a, k, s: SRef(as_model(E.force(a[1]).t), MO.Model)
        E.contracts[O.MinimizeModel.eval_jacobian] = lambda E, a, k, s: vec(P.n, lambda i: cg(E.force(a[0]).t, i))
        E.contracts[O.MinimizeModel.eval_hessian] = lambda E, a, k, s: mat(P.n, P.n, lambda i, j: chess(E.force(a[0]).t, i, j))
        if custom:
            # plain functions, wrapped in a model of one component with the parameters of the minimizer
            funs = {nm: SFun(nm, lambda E, f, a, k, s: (_ for _ in ()).throw(Unsupported('call of a user function'))) for nm in ('objective', 'jacobian', 'hessian')}
            E.contracts[sympy.Dummy] = lambda E, a, k, s: SRef(z3.Const('dummy', Obj), sympy.Dummy)
            def numerical(E, a, k, s):
                vals = E.as_seq(E.iter_value(E.call(E.getattr(a[0], 'values'), [])))
                return E.new_obj(MO.CallableNumericalModel, function=E.force(E.seq_get(vals, 0)), connected=k.get('connectivity_mapping'))
            E.contracts[MO.CallableNumericalModel] = numerical
            E.contracts[MO.BaseCallableModel.params.fset] = lambda E, a, k, s: E.setf(a[0], 'of_params', a[1])
            E.contracts[O.MinimizeModel] = lambda E, a, k, s: E.new_obj(O.MinimizeModel, model=a[0], data=k.get('data'))
        def go():
            q = E.idx('q')
            kw = {}
            if con: kw['constraints'] = E.new_list([Comp(n, q, True, SRef(CO(q), {'objectives': O.MinimizeModel, 'models': MO.Model, 'relations': sympy.Rel}[style]))])
            if custom:
                if derivs and issubclass(cls, M.GradientMinimizer): kw['jacobian'] = funs['jacobian']
                if derivs and issubclass(cls, M.HessianMinimizer): kw['hessian'] = funs['hessian']
                m = E.call(cls, [funs['objective'], S.plist], kw)
            else:
                S.extra = kw
                E.setattr(S.obj, 'data', SRef(z3.Const('the data', Obj), dict))
                m = S.make()
            if guess: E.setattr(m, 'initial_guesses', E.new_list([comp(P.nfree(), lambda i: given_guess(i))]))
            x = x_in(P)
            if custom:
                def look(m):
                    out = {}
                    for k in ('objective', 'jacobian', 'hessian'):
                        if k in fields(E, m) and E.force(E.getattr(m, k)) is not None:
                            mm = E.getattr(E.getattr(m, k), 'model')
                            f = E.force(E.getf(mm, 'function'))
                            out[k] = f.name if isinstance(f, SFun) else repr(f)
                            E.prove_value(f'{k}: of the parameters of the minimizer', E.getf(mm, 'of_params'), P.list())
                        else: out[k] = None
                    for k in ('parameters', 'params', 'initial_guesses', 'bounds'):
                        if hasattr(E.cls_of(m), k) or k in fields(E, m): out[k] = E.getattr(m, k)
                    return out
            else: look = lambda m: observe(E, m, P, x, n)
            before = look(m)
            new = m
            for _ in range(2):
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is cls)
                compare(E, before, look(new))
                compare(E, before, look(m))
            E.prove_value('all parameters', E.getattr(new, 'parameters'), P.list())
        run(E, f'{cls.__name__}: pickled and restored, twice', go)
    return t


for c in SCIPY:
    for d in (False, True) if issubclass(c, M.GradientMinimizer) else (False,):
        if c is M.BasinHopping: continue
        task('C17', f'{c.__name__}{" with derivatives" if d else ""}')(restored(c, d))
        if c is not M.MINPACK: task('C17', f'{c.__name__} of functions{" with derivatives" if d else ""}')(restored(c, d, custom=True))
for c in SCIPY:
    if issubclass(c, M.ConstrainedMinimizer):
        for st in ('models', 'relations'): task('C17', f'{c.__name__}, constraints as {st}')(restored(c, issubclass(c, M.GradientMinimizer), style=st))
task('C17', 'LBFGSB, guess set')(restored(M.LBFGSB, True, guess=True))
task('C17', 'NelderMead, guess set')(restored(M.NelderMead, False, guess=True))
task('C17', 'MINPACK, guess set')(restored(M.MINPACK, True, guess=True))


# ---------------------------------------------------------------------- a minimizer inside a minimizer
def nested(local, given):
    """BasinHopping with a local minimizer given as a class, or as an object (by its own contract restored as itself)."""
    def t(E):
        S = Setup(E, M.BasinHopping)
        P = S.P
        E.assume(P.nfree() >= 1)
        def go():
            x = x_in(P)
            inner = local if given == 'class' else E.call(local, [S.obj, S.plist], {'jacobian': E.getattr(S.obj, 'eval_jacobian')} if issubclass(local, M.GradientMinimizer) else {})
            if given == 'object': E.setattr(inner, 'initial_guesses', E.new_list([comp(P.nfree(), lambda i: given_guess(i))]))
            S.extra = {'local_minimizer': inner} if given != 'default' else {}
            m = S.make()
            def look(m):
                out = observe(E, m, P, x, z3.IntVal(0))
                l = E.force(out.pop('local_minimizer'))
                out['class of the local minimizer'] = E.cls_of(l).__name__
                for k, v in observe(E, l, P, x, z3.IntVal(0)).items(): out['local minimizer: ' + k] = v
                return out
            before = look(m)
            E.prove('the local minimizer asked for', before['class of the local minimizer'] == local.__name__)
            new = m
            for _ in range(2):
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is M.BasinHopping)
                compare(E, before, look(new))
                compare(E, before, look(m))
        run(E, f'BasinHopping({local.__name__}, {given}): pickled and restored, twice', go)
    return t


for c, g in ((M.BFGS, 'default'), (M.Powell, 'class'), (M.LBFGSB, 'class'), (M.SLSQP, 'class'), (M.NelderMead, 'object'), (M.LBFGSB, 'object'), (M.BFGS, 'object')):
    task('C17', f'BasinHopping, {c.__name__}, {g}')(nested(c, g))


# ---------------------------------------------------------------------- chains
from contracts.c14 import Chain, Mi, Stub, cname


@task('C17', 'ChainedMinimizer')
def _(E):
    C = Chain(E)
    P, N = C.P, C.N
    E.assume(P.nfree() >= 1)
    E.contracts[M.ChainedMinimizer._make_signature] = lambda E, a, k, s: (signed.append(E.getattr(a[0], 'minimizers')), SRef(z3.Const('signature', Obj), object))[1]
    signed = []
    q = E.idx('q')
    chain = SSeq([Comp(N, q, True, SRef(Mi(q), Stub))])
    for guess in (False, True):
        def go():
            signed.clear()
            obj = E.new_obj(O.LeastSquares, model=E.new_obj(MO.Model, params=P.list()))
            m = E.call(M.ChainedMinimizer, [obj, P.list()], {'minimizers': C.minims()})
            if guess: E.setattr(m, 'initial_guesses', E.new_list([comp(P.nfree(), lambda i: given_guess(i))]))
            look = lambda m: observe(E, m, P, x_in(P), z3.IntVal(0)) | {'the signature': E.getattr(m, '__signature__')}
            before = look(m)
            new = m
            for _ in range(2):
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is M.ChainedMinimizer)
                compare(E, before, look(new))
                compare(E, before, look(m))
                E.prove_value('the same minimizers in the same order', E.iter_value(E.getattr(new, 'minimizers')), chain)
                E.prove('the signature is made of them', len(signed) > 1)
                E.prove_value('... of them', E.iter_value(signed.pop()), chain)
        run(E, f'ChainedMinimizer: pickled and restored, twice{", guess set" if guess else ""}', go)


# ---------------------------------------------------------------------- results
ATTRIBUTES = ('constraints', 'minimizer_output', 'model', 'objective', 'status_message', '_popt', 'params', 'covariance_matrix', 'gof_qualifiers')


def results(cls):
    """Every attribute of the result is kept; the minimizer is one of the same class with the same objective and parameters (and, of a chain, the same
    classes in the same order)."""
    def t(E):
        if cls is M.ChainedMinimizer:
            C = Chain(E)
            P = C.P
            made = z3.Function('minimizer_made', I, I, Obj)
            num = z3.Int('number_of_object')
            k, j = z3.Int('$k'), z3.Int('$j')
            E.ax_by_fn.setdefault('minimizer_made', []).append(z3.ForAll([k, j], cname(made(k, j)) == k, patterns=[made(k, j)]))
            seen = []
            def make(E, f, a, k, s):
                seen.append(positional(('objective', 'parameters'), a, k))
                return SRef(made(f.data[0], z3.IntVal(len(seen))), Stub)
            E.schema[Stub] = {'__class__': lambda E, r: SFun('class', make, (cname(r.t),), attrs={'__name__': SStr(cname(r.t))})}
            E.contracts[M.ChainedMinimizer._make_signature] = lambda E, a, k, s: SRef(z3.Const('signature', Obj), object)
        else:
            S = Setup(E, cls)
            P = S.P
        E.assume(P.nfree() >= 1)
        reserve(E, 'self')
        def go():
            i = E.idx('i')
            if cls is M.ChainedMinimizer:
                obj = E.new_obj(O.LeastSquares, model=E.new_obj(MO.Model, params=P.list()))
                m = E.call(M.ChainedMinimizer, [obj, P.list()], {'minimizers': C.minims()})
            else:
                m = S.make()
                obj = S.obj
            f = {k: SRef(z3.Const('attribute_' + k, Obj), object) for k in ATTRIBUTES}
            f['objective'] = obj
            f['params'] = E.new_dict([('loop', P.n, i, True, SStr(pname(P.fn(i))), xres(i))], collections.OrderedDict)
            f['extra'] = z3.Real('extra')
            res = E.new_obj(FR.FitResults, minimizer=m, **f)
            new = res
            for _ in range(2):
                if cls is M.ChainedMinimizer: seen.clear()
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is FR.FitResults)
                for r, what in ((new, ''), (res, ' of the original')):
                    got = fields(E, r)
                    for k, v in f.items(): E.prove_value(k + what, got.get(k), v)
                E.prove('the original keeps its minimizer', E.getf(res, 'minimizer') is m or E.getf(res, 'minimizer').id == m.id)
                mm = E.getattr(new, 'minimizer')
                E.prove('a minimizer of the same class', E.cls_of(mm) is cls)
                E.prove_value('its objective', E.getattr(mm, 'objective'), obj)
                E.prove_value('its parameters', E.getattr(mm, 'parameters'), P.list())
                if cls is M.ChainedMinimizer:
                    ms = E.getattr(mm, 'minimizers')
                    E.prove_value('as many minimizers', E.seq_len(E.as_seq(E.iter_value(ms))), C.N)
                    w = z3.Int('some_minimizer')
                    if E.branch(And(w >= 0, w < C.N)):
                        E.prove_value('the class of a minimizer', E.getattr(E.call(type, [E.getitem(ms, w)]), '__name__'), SStr(cname(Mi(w))))
                    for a, k in seen:
                        E.prove('objective and parameters are given', len(a) == 2 and not k)
                        E.prove_value('its objective', a[0], obj)
                        E.prove_value('its parameters', a[1], P.list())
        run(E, f'FitResults of {cls.__name__}: pickled and restored, twice', go)
    return t


for c in SCIPY + [M.ChainedMinimizer]: task('C17', f'FitResults, {c.__name__}')(results(c))


# ---------------------------------------------------------------------- objectives
OBJECTIVES = [c for c in vars(O).values() if isinstance(c, type) and issubclass(c, O.BaseObjective) and c.__module__ == O.__name__ and not getattr(c, '__abstractmethods__', None)]


def objective(cls):
    def t(E):
        def go():
            cs = c19.caches(cls)
            f = {k: SRef(z3.Const('attribute_' + k, Obj), object) for k in ('model', 'data', 'extra')}
            g = {c.cache_attr: SIte(z3.Bool('cached_' + n), SRef(z3.Const('val_' + n, Obj), object), MISSING) for n, c in cs.items()}
            obj = E.new_obj(cls, **f, **g)
            new = obj
            for _ in range(2):
                new = roundtrip(E, new)
                E.prove('of the same class', E.cls_of(new) is cls)
                for r, what in ((new, ''), (obj, ' of the original')):
                    got = E.rec(r).f
                    for k, v in f.items(): E.prove_value(k + what, got.get(k), v)
                    for k, v in g.items():
                        # what is cached may be kept (model and data are) or dropped
                        if k in got and got[k] is not MISSING: E.prove_value(k + what, got[k], v)
        run(E, f'{cls.__name__}: pickled and restored, twice', go)
    return t


for c in OBJECTIVES: task('C17', f'objective {c.__name__}')(objective(c))


# ---------------------------------------------------------------------- what equality of objectives and models means
Key = z3.Function('data_key', I, Obj)
near = z3.Function('numerically_equal', Obj, Obj, B)
raises = z3.Function('not_numerical', Obj, B)
equal = lambda a, b: a == b


@task('C17', 'BaseObjective.__eq__')
def _(E):
    import numpy as np
    n = z3.Int('n_data')
    E.assume(n >= 0)
    E.declare_injective(Key)
    d1, d2 = z3.Function('data_1', I, Obj), z3.Function('data_2', I, Obj)
    def allclose(E, a, k, s):
        x, y = E.force(a[0]), E.force(a[1])
        if E.branch(raises(x.t)) or E.branch(raises(y.t)): raise Raised(TypeError('not a number'))
        return near(x.t, y.t)
    E.contracts[np.allclose] = allclose
    class Data: pass
    m1, m2 = z3.Const('model_1', Obj), z3.Const('model_2', Obj)
    for c1, c2 in ((O.LeastSquares, O.LeastSquares), (O.LeastSquares, O.VectorLeastSquares)):
        def go():
            i, j = E.idx('i'), E.idx('j')
            data = lambda f, k: E.new_dict([('loop', n, k, True, SRef(Key(k), AR.Variable), SRef(f(k), Data))])
            a = E.new_obj(c1, model=SRef(m1, MO.Model), data=data(d1, i))
            b = E.new_obj(c2, model=SRef(m2, MO.Model), data=data(d2, j))
            r = E.truth(E.call(O.BaseObjective.__eq__, [a, b]))
            w = E.idx('w')
            num = lambda k: Or(raises(d1(k)), raises(d2(k)))
            same = E.forall(w, Implies(And(w >= 0, w < n), z3.If(num(w), equal(d2(w), d1(w)), near(d2(w), d1(w)))))
            E.prove('equal exactly if of one class, with equal models and data', tobool(r) == And(c1 is c2, equal(m1, m2), same) if c1 is c2 else Not(tobool(r)))
        run(E, f'{c1.__name__} == {c2.__name__}', go)


@task('C17', 'BaseModel.__eq__')
def _(E):
    V1, V2 = z3.Function('component_1', I, Obj), z3.Function('component_2', I, Obj)
    e1, e2 = z3.Function('expression_1', Obj, Obj), z3.Function('expression_2', Obj, Obj)
    expand = z3.Function('expand', Obj, Obj)
    n1, n2 = z3.Int('n_1'), z3.Int('n_2')
    E.assume(z3.And(n1 >= 0, n2 >= 0))
    E.declare_injective(V1); E.declare_injective(V2)
    E.schema[sympy.Expr] = {'expand': lambda E, r: SFun('expand', lambda E, f, a, k, s: SRef(expand(f.data[0]), sympy.Expr), (r.t,))}
    E.trusted.add('sympy expand')
    def go():
        i, j = E.idx('i'), E.idx('j')
        md = lambda n, V, e, k: E.new_dict([('loop', n, k, True, SRef(V(k), AR.Variable), SRef(e(V(k)), sympy.Expr))], collections.OrderedDict)
        a = E.new_obj(MO.Model, model_dict=md(n1, V1, e1, i))
        b = E.new_obj(MO.Model, model_dict=md(n2, V2, e2, j))
        r = E.truth(E.call(MO.Model.__eq__, [a, b]))
        w = E.idx('w')
        same = E.forall(w, Implies(And(w >= 0, w < n1), And(V1(w) == V2(w), expand(e1(V1(w))) == expand(e2(V2(w))))))
        E.prove('equal exactly if the components and their expressions are', tobool(r) == And(n1 == n2, same))
    run(E, 'Model == Model', go)


@task('C17', 'BaseNumericalModel.__eq__')
def _(E):
    V1 = z3.Function('component_1', I, Obj)
    e1, e2 = z3.Function('function_1', Obj, Obj), z3.Function('function_2', Obj, Obj)
    n1 = z3.Int('n_1')
    E.assume(n1 >= 0)
    E.declare_injective(V1)
    class Map: pass
    c1, c2 = z3.Const('connectivity_1', Obj), z3.Const('connectivity_2', Obj)
    def go():
        i, j = E.idx('i'), E.idx('j')
        md = lambda n, V, e, k: E.new_dict([('loop', n, k, True, SRef(V(k), AR.Variable), SRef(e(V(k)), object))], collections.OrderedDict)
        a = E.new_obj(MO.CallableNumericalModel, model_dict=md(n1, V1, e1, i), _connectivity_mapping=SRef(c1, Map))
        b = E.new_obj(MO.CallableNumericalModel, model_dict=md(n1, V1, e2, j), _connectivity_mapping=SRef(c2, Map))
        r = E.truth(E.call(MO.CallableNumericalModel.__eq__, [a, b]))
        w = E.idx('w')
        same = E.forall(w, Implies(And(w >= 0, w < n1), e1(V1(w)) == e2(V1(w))))
        E.prove('equal exactly if connected the same, with the same functions', tobool(r) == And(c1 == c2, same))
    run(E, 'CallableNumericalModel == CallableNumericalModel', go)
