"""C17: pickling round trips."""
import copy, pickle
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array
from native.c08 import random_dag


def rt(x, rng=None):
    if rng is not None and rng.random() < .3: return pickle.loads(pickle.dumps(x, protocol=rng.choice([2, 3, 4, 5])))
    return pickle.loads(pickle.dumps(x))


def same_params(a, b):
    assert len(a) == len(b)
    for p, q in zip(a, b):
        assert type(p) is type(q) and (p.name, p.value, p.min, p.max, p.fixed) == (q.name, q.value, q.min, q.max, q.fixed), (p, q)
        assert p == q and hash(p) == hash(q)


@check('C17', n=40)
def symbols(rng):
    """Parameters and variables, restored after the originals were changed."""
    from symfit import Parameter, Variable
    v = rng.uniform(-3, 3)
    lo = rng.choice([None, v - 1, 0 if v > 0 else v - 3]); hi = rng.choice([None, v + 1])
    a = Parameter('pick%d' % rng.randint(0, 5), value=v, min=lo, max=hi, fixed=rng.random() < .5)
    want = (a.name, a.value, a.min, a.max, a.fixed)
    s = pickle.dumps(a, protocol=rng.choice([2, 3, 4, 5]))
    if rng.random() < .5: a.value += 1; a.min = None; a.max = 99.0; a.fixed = not a.fixed
    b = pickle.loads(s)
    assert (b.name, b.value, b.min, b.max, b.fixed) == want, (b.name, b.value, b.min, b.max, b.fixed)
    assert isinstance(b, Parameter)
    x = Variable('v%d' % rng.randint(0, 5)); y = rt(x, rng)
    assert y == x and type(y) is Variable and y.name == x.name and hash(x) == hash(y)
    e = sp.sin(b * x) + b ** 2
    f = rt(e, rng); assert f == e
    return str(want)


@check('C17', n=24)
def models(rng):
    from symfit import Model, CallableModel
    from symfit.core.models import GradientModel
    d, ivs, ps, order = random_dag(rng, npmax=3, ncmax=3)
    model = rng.choice([Model, GradientModel, CallableModel])(d)
    env = {x.name: data_array(rng, (3,), .2, 1) for x in ivs}; env.update({p.name: rng.uniform(-1, 1) for p in ps})
    if rng.random() < .5: before = model(**env)   # caches filled or not
    new = rt(model, rng)
    assert new == model and model == new and type(new) is type(model)
    same_params(model.params, new.params)
    assert list(model) == list(new) and model.independent_vars == new.independent_vars and model.dependent_vars == new.dependent_vars
    assert model.interdependent_vars == new.interdependent_vars and model.sigmas == new.sigmas and model.__signature__ == new.__signature__
    a, b = model(**env), new(**env)
    for x, y in zip(a, b): close(x, y, 0)
    if not type(model) is CallableModel:
        for x, y in zip(model.eval_jacobian(**env), new.eval_jacobian(**env)): close(x, y, 0)
    out = rt(a, rng)
    assert type(out) is type(a) and out.variables == a.variables and list(out._asdict()) == list(a._asdict()) and len(out) == len(a)
    for i, v in enumerate(a.variables): close(out[i], a[i], 0); close(getattr(out, v.name), a[i], 0); close(out._asdict()[v], a[i], 0)
    c = copy.copy(a); assert c.variables == a.variables
    return f'{type(model).__name__} {d}'


@check('C17', n=1)
def large_model(rng):
    from symfit import Variable, Parameter
    from symfit.core.models import BaseModel
    p = Parameter('p')
    m = BaseModel({Variable('v%03d' % i): p * i for i in range(1, 300)})
    n = rt_base(m)
    assert m == n
    return '299 components'


def rt_base(m):
    from symfit.core.models import BaseModel
    return BaseModel(dict(pickle.loads(pickle.dumps(dict(m.model_dict)))))


@check('C17', n=10)
def ode_models(rng):
    from symfit import ODEModel
    from native.c16 import system
    md, ini, sol, t, t0 = system(rng)
    model = ODEModel(md, initial=ini, rtol=rng.choice([1e-4, 1e-7]))
    new = rt(model, rng)
    same_params(model.params, new.params)
    assert new.initial == model.initial and new.integrator_kwargs == model.integrator_kwargs and new.model_dict == model.model_dict
    T = np.array([t0, t0 + .5, t0 + 1.0]); vals = {p.name: rng.uniform(.5, 1) for p in model.params}
    for a, b in zip(model(**{t.name: T}, **vals), new(**{t.name: T}, **vals)): close(a, b, 0)
    return str(md)


def chi(a, b): return (a - 1) ** 2 + 2 * (b - 2) ** 2 + a * b
def dchi(a, b): return np.array([2 * (a - 1) + b, 4 * (b - 2) + a])


@check('C17', n=40)
def objectives_and_minimizers(rng):
    from symfit import Model, variables, Ge
    from symfit.core import objectives as O, minimizers as M
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=.3, p_bound=.4)
    x, y = variables('x, y')
    kind = rng.choice(['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel'])
    e = sum((p ** 2 * x ** i for i, p in enumerate(ps)), sp.Integer(0)) + x ** 2 + 5
    model = Model({y: e.subs(x, 2) if kind == 'MinimizeModel' else e})
    data = {y: None, model.sigmas[y]: None} if kind in ('LogLikelihood', 'MinimizeModel') else {y: data_array(rng, (5,)), model.sigmas[y]: data_array(rng, (5,))}
    if kind != 'MinimizeModel': data[x] = data_array(rng, (5,))
    obj = getattr(O, kind)(model, data)
    vals = [rng.uniform(.5, 1.5) for p in model.free_params]
    if rng.random() < .5: obj(vals)
    new = rt(obj, rng)
    assert type(new) is type(obj) and new == obj and obj == new and set(new.data) == set(obj.data)
    close(new(vals), obj(vals), 0)
    close(new.eval_jacobian(vals), obj.eval_jacobian(vals), 0)
    for k in data:
        if data[k] is not None: close(new.data[k], data[k], 0)
    changed = {**data}
    k = x if x in data else None
    if k is not None:
        changed[k] = data[k] + 1; assert not (getattr(O, kind)(model, changed) == obj)
    # minimizers
    cls = rng.choice([M.BFGS, M.SLSQP, M.LBFGSB, M.NelderMead, M.Powell, M.COBYLA, M.TrustConstr, M.BasinHopping, M.MINPACK, M.DifferentialEvolution])
    if cls is M.MINPACK and kind != 'VectorLeastSquares': cls = M.SLSQP
    kw = {}
    if (kind != 'VectorLeastSquares' or cls is M.MINPACK) and issubclass(cls, M.GradientMinimizer) and rng.random() < .7: kw['jacobian'] = obj.eval_jacobian
    if issubclass(cls, M.HessianMinimizer) and hasattr(obj, 'eval_hessian') and rng.random() < .7: kw['hessian'] = obj.eval_hessian
    cons = []
    if issubclass(cls, M.ConstrainedMinimizer) and rng.random() < .7:
        con = Model.as_constraint(Ge(ps[0] ** 2, .1), model); cons = [O.MinimizeModel(con, data)]
        # the forms in which a minimizer made by hand takes them
        if rng.random() < .6: cons = [rng.choice([O.MinimizeModel(con, data), con, Ge(ps[0] ** 2, .1)]) for _ in range(rng.randint(1, 3))]
        kw['constraints'] = cons
    if cls is M.BasinHopping: kw['local_minimizer'] = rng.choice([M.Powell, M.LBFGSB, M.Powell(obj, model.params), M.LBFGSB(obj, model.params, jacobian=getattr(obj, 'eval_jacobian', None))])
    m = cls(obj, model.params, **kw)
    # a minimizer may have been given another starting point, as in a chain
    if rng.random() < .4: m.initial_guesses = [rng.uniform(.5, 1.5) for _ in m.params]
    q = rt(m, rng)
    assert type(q) is cls and q.objective == m.objective
    same_params(m.parameters, q.parameters); same_params(m.params, q.params)
    assert list(q.initial_guesses) == list(m.initial_guesses)
    xv = np.array(vals)
    for at in ('wrapped_jacobian', 'wrapped_hessian') if kind != 'VectorLeastSquares' or cls is M.MINPACK else ():
        a, b = getattr(m, at, None), getattr(q, at, None)
        assert (a is None) == (b is None), at
        if a is not None: close(a(xv), b(xv), 0, at)
    if hasattr(m, 'constraints'):
        assert len(q.constraints) == len(m.constraints) == len(cons)
        for a, b in zip(m.constraints, q.constraints):
            assert a == b and type(a) is type(b)
            if isinstance(a, O.MinimizeModel): close(a(xv), b(xv), 0)
    if hasattr(m, 'wrapped_constraints'):
        assert len(m.wrapped_constraints) == len(q.wrapped_constraints)
        for a, b in zip(m.wrapped_constraints, q.wrapped_constraints):
            get = (lambda c, k: c.get(k)) if isinstance(a, dict) else (lambda c, k: getattr(c, k, None))
            for k in ('type', 'lb', 'ub'): assert get(a, k) == get(b, k), k
            close(get(a, 'fun')(xv), get(b, 'fun')(xv), 0)
    if cls is M.BasinHopping: 
        k, l = m.local_minimizer, q.local_minimizer
        assert type(l) is type(k) and l.objective == k.objective
        same_params(k.parameters, l.parameters)
        if isinstance(k, M.GradientMinimizer):
            assert (k.wrapped_jacobian is None) == (l.wrapped_jacobian is None), 'gradient of the local minimizer'
            if k.wrapped_jacobian is not None and kind != 'VectorLeastSquares': close(k.wrapped_jacobian(xv), l.wrapped_jacobian(xv), 0)
    if hasattr(m, 'bounds'): assert q.bounds == m.bounds
    return f'{kind} {cls.__name__} {describe(ps)} {sorted(kw)}'


@check('C17', n=24)
def custom_and_chained(rng):
    from symfit import Parameter
    from symfit.core import minimizers as M
    a = Parameter('a', value=rng.uniform(0, 1), fixed=rng.random() < .3); b = Parameter('b', value=rng.uniform(1, 2), min=rng.choice([None, -5.0]))
    cs = [rng.choice([M.BFGS, M.NelderMead, M.Powell, M.LBFGSB]) for _ in range(rng.randint(1, 4))]
    ms = [c(chi, [a, b], **({'jacobian': dchi} if issubclass(c, M.GradientMinimizer) else {})) for c in cs]
    ch = M.ChainedMinimizer(chi, [a, b], minimizers=ms)
    new = rt(ch, rng)
    assert [type(m) for m in new.minimizers] == cs and list(new.__signature__.parameters) == list(ch.__signature__.parameters)
    same_params(ch.parameters, new.parameters)
    r, s = ch.execute(), new.execute()
    for k in r.params: close(r.params[k], s.params[k], 1e-12)
    assert r.iterations == s.iterations
    for m, q in zip(ms, new.minimizers): same_params(m.parameters, q.parameters)
    return f'{cs}'


@check('C17', n=16)
def fit_results(rng):
    from symfit import Fit, Model, variables, Ge
    from symfit.core import minimizers as M
    ps = mkparams(rng, 2, p_fixed=0, p_bound=.3)
    x, y = variables('x, y')
    xd = np.linspace(0, 1, 8); yd = ps[0].value * xd + ps[1].value + .02 * data_array(rng, (8,), -1, 1)
    mini = rng.choice([None, M.MINPACK, M.SLSQP, [M.NelderMead, M.BFGS], [M.Powell], [M.BFGS, M.BFGS], [M.Powell, M.BFGS, M.Powell], M.COBYLA])
    cons = [Ge(ps[0], -5)] if rng.random() < .4 and mini in (None, M.SLSQP, M.COBYLA) else []
    fit = Fit(Model({y: ps[0] * x + ps[1]}), x=xd, y=yd, minimizer=mini, constraints=cons)
    res = fit.execute()
    new = rt(res, rng)
    assert dict(new.params) == dict(res.params) and list(new.params) == list(res.params)
    close(new.covariance_matrix, res.covariance_matrix, 0)
    assert set(new.gof_qualifiers) == set(res.gof_qualifiers)
    for k in res.gof_qualifiers: close(getattr(new, k), getattr(res, k), 0)
    for p in ps: assert new.value(p) == res.value(p); close(new.stdev(p), res.stdev(p), 0)
    assert new.model == res.model and new.objective == res.objective and type(new.minimizer) is type(res.minimizer)
    assert new.iterations == res.iterations and new.status_message == res.status_message
    assert len(new.constraints) == len(res.constraints) and all(a == b for a, b in zip(new.constraints, res.constraints))
    if isinstance(mini, list): assert [type(m) for m in new.minimizer.minimizers] == mini
    again = rt(new)
    assert dict(again.params) == dict(res.params)
    return f'{mini} {describe(ps)} {cons}'
