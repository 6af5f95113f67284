"""C15: what Fit chooses and what the optimizer receives."""
import copy
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array, numgrad
from native.c02 import Recorder


@check('C15', n=60)
def choices(rng):
    from symfit import Fit, Model, variables, Ge, CallableModel
    from symfit.core import minimizers as M, objectives as O
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, .5]), p_bound=rng.choice([0, 0, .15, .4]), wide=True)
    x, y, z = variables('x, y, z')
    shape = rng.choice(['scalar', 'scalar with data', 'xy', 'vector'])
    e = sum((p ** 2 for p in ps), sp.Integer(0))
    data = {}
    if shape.startswith('scalar'): md = {y: e}
    elif shape == 'xy': md = {y: e * x}
    else: md = {y: e * x, z: e + x}
    if shape == 'scalar with data': data['y'] = data_array(rng, (4,))
    if shape == 'scalar' and rng.random() < .3: data['y'] = None       # the same as no data
    if shape in ('xy', 'vector'): data['x'] = data_array(rng, (4,)); data['y'] = data_array(rng, (4,))
    if shape == 'vector': data['z'] = data_array(rng, (4,))
    cons = [Ge(ps[0], 0.1)] if rng.random() < .3 else None
    minimizer = rng.choice([None, None, None, M.MINPACK, M.NelderMead]) if shape != 'scalar' else rng.choice([None, M.NelderMead])
    fit = Fit(Model(md), constraints=cons, minimizer=minimizer, **data)
    wobj = O.MinimizeModel if shape == 'scalar' and minimizer is not M.MINPACK else O.VectorLeastSquares if minimizer is M.MINPACK else O.LeastSquares
    assert type(fit.objective) is wobj, (type(fit.objective), wobj)
    bounded = any(not p.fixed and (p.min is not None or p.max is not None) or p.fixed for p in ps)   # a fixed parameter counts as bounded in model.bounds
    strict = any(not p.fixed and (p.min is not None or p.max is not None) for p in ps)
    if minimizer is not None: assert type(fit.minimizer) is minimizer
    elif cons: assert type(fit.minimizer) is M.SLSQP
    elif strict: assert type(fit.minimizer) is M.LBFGSB
    elif not bounded: assert type(fit.minimizer) is M.BFGS
    assert fit.minimizer.objective is fit.objective and fit.minimizer.parameters == fit.model.params
    return f'{shape} {minimizer} {cons} {describe(ps)}'


@check('C15', n=40)
def user_choices(rng):
    """The user's objective and minimizer are used as given (classes or instances)."""
    from symfit import Fit, Model, variables
    from symfit.core import minimizers as M, objectives as O
    ps = mkparams(rng, 2, p_fixed=0, p_bound=rng.choice([0, .3]), wide=True)
    x, y = variables('x, y')
    model = Model({y: ps[0] * x + ps[1]})
    how = rng.choice(['class', 'instance', 'objective class', 'objective instance', 'chain', 'basin'])
    data = dict(x=data_array(rng, (4,)), y=data_array(rng, (4,)))
    if how == 'class':
        c = rng.choice([M.BFGS, M.SLSQP, M.LBFGSB, M.NelderMead, M.Powell, M.COBYLA, M.TrustConstr])
        fit = Fit(model, minimizer=c, **data); assert type(fit.minimizer) is c
    elif how == 'instance':
        obj = O.LeastSquares(model, {x: data['x'], y: data['y'], model.sigmas[y]: np.ones(4)})
        m = M.Powell(obj, model.params)
        fit = Fit(model, minimizer=m, **data); assert fit.minimizer is m
    elif how == 'objective class':
        class Mine(O.LeastSquares): pass
        fit = Fit(model, objective=Mine, **data); assert type(fit.objective) is Mine and fit.minimizer.objective is fit.objective
    elif how == 'objective instance':
        obj = O.LeastSquares(model, {x: data['x'], y: data['y'], model.sigmas[y]: np.ones(4)})
        fit = Fit(model, objective=obj, **data); assert fit.objective is obj and fit.minimizer.objective is obj
    elif how == 'chain':
        cs = [rng.choice([M.NelderMead, M.BFGS, M.Powell]) for _ in range(rng.randint(1, 3))]
        fit = Fit(model, minimizer=cs, **data)
        assert isinstance(fit.minimizer, M.ChainedMinimizer) and [type(m) for m in fit.minimizer.minimizers] == cs
        assert all(m.objective is fit.objective for m in fit.minimizer.minimizers)
    else:
        fit = Fit(model, minimizer=rng.choice([M.BasinHopping, type('Mine', (M.BasinHopping,), {})]), **data)
        want = M.LBFGSB if any(p.min is not None or p.max is not None for p in ps) else M.BFGS
        assert type(fit.minimizer.local_minimizer) is want and fit.minimizer.local_minimizer.objective is fit.objective
    return f'{how} {describe(ps)}'


@check('C15', n=40)
def wiring(rng):
    """Derivatives, constraints and options that reach scipy."""
    from symfit import Fit, Model, CallableModel, variables, Ge
    from symfit.core import minimizers as M
    from symfit.core.models import GradientModel
    cls = rng.choice([M.BFGS, M.SLSQP, M.LBFGSB, M.NelderMead, M.Powell, M.COBYLA, M.TrustConstr, M.BasinHopping, M.DifferentialEvolution])
    ps = mkparams(rng, rng.randint(1, 3), p_fixed=.3, p_bound=1.1 if cls is M.DifferentialEvolution else .4)
    x, y = variables('x, y')
    mcls = rng.choice([Model, Model, GradientModel, CallableModel])
    model = mcls({y: sum((p * x ** i for i, p in enumerate(ps)), sp.Integer(0)) + sp.sin(ps[0]) * x})
    cons = [Ge(ps[0] * 2, 0.1)] if issubclass(cls, M.ConstrainedMinimizer) or rng.random() < .2 else []
    data = dict(x=data_array(rng, (6,)), y=data_array(rng, (6,)))
    fit = Fit(model, minimizer=cls, constraints=cons, **data)
    opts = {}
    if issubclass(cls, M.ScipyMinimize) and cls not in (M.BasinHopping, M.DifferentialEvolution):
        if rng.random() < .6: opts['options'] = {'maxiter': rng.randint(1, 50), 'disp': False}
        if rng.random() < .5: opts['tol'] = rng.choice([1e-3, 1e-5, None])
        if cls in (M.BFGS, M.LBFGSB, M.SLSQP) and rng.random() < .3: opts['jacobian'] = rng.choice(['2-point', False])
        if rng.random() < .3: opts['callback'] = lambda *a: None
    if cls is M.BasinHopping:
        opts['niter'] = rng.randint(1, 9)
        if rng.random() < .6: opts['minimizer_kwargs'] = rng.choice([{'tol': 1e-3}, {'method': 'Powell'}, {'options': {'maxiter': 3}}])
    if cls is M.DifferentialEvolution:
        if rng.random() < .6: opts['popsize'] = rng.randint(2, 9)
        if rng.random() < .6: opts['maxiter'] = rng.randint(2, 9)
        if rng.random() < .5: opts['polish'] = True
        if rng.random() < .4: opts['mutation'] = rng.choice([0.5, (0.3, 0.9)])
        if rng.random() < .4: opts['recombination'] = rng.choice([0.5, 0.0])
        if rng.random() < .4: opts['strategy'] = 'best1bin'
    given = copy.deepcopy({k: v for k, v in opts.items() if k != 'callback'})
    inner = opts.get('options', opts.get('minimizer_kwargs'))
    with Recorder() as R: fit.minimizer.execute(**opts)
    name, fun, d = R.calls[-1]
    assert {k: v for k, v in opts.items() if k != 'callback'} == given, f'user options modified: {opts} was {given}'
    free = [p for p in model.params if not p.fixed]
    xv = np.array([rng.uniform(.5, 1.5) for _ in free])
    F = lambda z: float(np.squeeze(fun(np.asarray(z))))
    full = {p.name: p.value for p in ps}; full.update({p.name: v for p, v in zip(free, xv)})
    f = sum(full[p.name] * data['x'] ** i for i, p in enumerate(ps)) + np.sin(full[ps[0].name]) * data['x']
    close(F(xv), 0.5 * np.sum((f - data['y']) ** 2), 1e-10, 'objective handed to scipy')
    for k, v in given.items():
        if k in ('minimizer_kwargs',): assert v.items() <= d[k].items(), (v, d[k])
        elif k == 'jacobian': assert d['jac'] == v, (d['jac'], v)
        elif k == 'options': assert v.items() <= d[k].items(), (v, d[k])
        else: assert d[k] == v, (k, d.get(k), v)
    if 'callback' in opts: assert d['callback'] is opts['callback']
    if cls is M.DifferentialEvolution:
        dflt = dict(strategy='rand1bin', popsize=40, mutation=(0.423, 1.053), recombination=0.95, polish=False, init='latinhypercube')
        for k, v in dflt.items():
            if k not in given: assert d[k] == v, (k, d.get(k), v)
    if cls is M.BasinHopping:
        mk = d['minimizer_kwargs']
        loc = fit.minimizer.local_minimizer
        if 'method' not in (given.get('minimizer_kwargs') or {}): assert mk['method'] == loc.method_name()
        bounded = isinstance(loc, M.BoundedMinimizer)
        if bounded: assert mk['bounds'] == [(p.min, p.max) for p in free]
        asked = given.get('minimizer_kwargs') or {}
        assert set(mk) <= set(asked) | {'method', 'jac', 'hess', 'bounds', 'constraints'}, f'options nobody asked for: {mk}'
        jac, has = mk.get('jac'), mcls is not CallableModel
    elif issubclass(cls, M.ScipyMinimize) and cls is not M.DifferentialEvolution:
        names = {M.LBFGSB: 'L-BFGS-B', M.NelderMead: 'Nelder-Mead', M.TrustConstr: 'trust-constr'}
        assert d['method'] == names.get(cls, cls.__name__), d['method']
        assert d['tol'] == given.get('tol', 1e-9)
        jac, has = d.get('jac'), issubclass(cls, M.GradientMinimizer) and mcls is not CallableModel and 'jacobian' not in given
        if issubclass(cls, M.ConstrainedMinimizer): assert len(d['constraints']) == len(cons)
        if issubclass(cls, M.BoundedMinimizer): assert list(d['bounds']) == [(p.min, p.max) for p in free]
        if cls is M.TrustConstr and mcls is Model:
            close(np.asarray(d['hess'](xv)), numgrad(lambda q: numgrad(F, q, 5e-3), xv, 5e-3), 1e-4, 'Hessian')
    else: jac, has = None, False
    if has: close(np.asarray(jac(xv)), numgrad(F, xv), 1e-5, 'gradient')
    else: assert not callable(jac), jac
    return f'{cls.__name__} {mcls.__name__} {describe(ps)} {sorted(given)}'


@check('C15', n=20)
def derivatives_of_any_objective(rng):
    """The analytical derivatives of whichever objective is minimized reach the minimizers that support them."""
    from symfit import Fit, Model, variables, exp
    from symfit.core import minimizers as M, objectives as O
    ps = mkparams(rng, 2, p_fixed=0, p_bound=.3)
    x, y = variables('x, y')
    cls = rng.choice([M.BFGS, M.SLSQP, M.LBFGSB, M.TrustConstr])
    ocls = rng.choice([O.LogLikelihood, O.MinimizeModel, O.LeastSquares, None])
    if ocls is O.MinimizeModel or ocls is None: model, data = Model({y: (ps[0] - 1) ** 2 * ps[1] + exp(ps[1])}), {}
    else: model, data = Model({y: exp(ps[0] * x) + ps[1] ** 2}), dict(x=data_array(rng, (5,)))
    if ocls is O.LeastSquares: data['y'] = data_array(rng, (5,))
    fit = Fit(model, objective=ocls, minimizer=cls, **data)
    with Recorder() as R: fit.minimizer.execute()
    name, fun, d = R.calls[-1]
    F = lambda z: float(np.squeeze(fun(np.asarray(z))))
    xv = np.array([rng.uniform(.5, 1.2) for _ in ps])
    assert callable(d['jac']), d['jac']
    close(np.asarray(d['jac'](xv)), numgrad(F, xv), 1e-5, 'gradient')
    if cls is M.TrustConstr:
        assert callable(d['hess']), d['hess']
        close(np.asarray(d['hess'](xv)), numgrad(lambda q: numgrad(F, q, 5e-3), xv, 5e-3), 1e-4, 'Hessian')
    return f'{cls.__name__} {ocls} {describe(ps)}'


@check('C15', n=12)
def execute_passes_options(rng):
    """Fit.execute hands every option to the minimizer, and reports on the model and minimizer used."""
    from symfit import Fit, Model, variables
    from symfit.core import minimizers as M
    from symfit.core.fit_results import FitResults
    ps = mkparams(rng, 2, p_fixed=0, p_bound=0)
    x, y = variables('x, y')
    model = Model({y: ps[0] * x + ps[1]})
    got = []
    class Mine(M.BaseMinimizer):
        def execute(self, **kw):
            got.append(kw)
            return FitResults(M.DummyModel(params=self.parameters), [p.value for p in self.parameters], None, None, self.objective, 'ok', fun=1.0)
    fit = Fit(model, minimizer=Mine, x=data_array(rng, (5,)), y=data_array(rng, (5,)))
    opts = {k: rng.random() for k in rng.sample(['tol', 'alpha', 'maxiter', 'q'], rng.randint(0, 4))}
    res = fit.execute(**opts)
    assert got == [opts] and res.model is fit.model and res.minimizer is fit.minimizer
    return str(opts)
