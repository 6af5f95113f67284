"""C13: goodness of fit numbers of results built from any model values."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array
from native.c04 import setup


@check('C13', n=50)
def qualifiers(rng):
    from symfit.core import objectives as O
    from symfit.core.fit_results import FitResults
    kind = ['LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel', 'custom'][rng.case % 5]
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng, same_shape=kind == 'VectorLeastSquares', nd=1 if kind == 'MinimizeModel' else None)
    if kind in ('LogLikelihood', 'MinimizeModel'):
        for v in dvs: data[v] = None; data[model.sigmas[v]] = None
    if kind == 'custom':
        class Custom(O.BaseObjective):
            def __call__(self, ordered_parameters=[], **p): return 1.0
        obj = Custom(model, data)
    else:
        ocls = getattr(O, kind)
        if rng.random() < .3: ocls = type('Mine', (ocls,), {})       # objectives of the user, derived from ours
        obj = ocls(model, data)
    popt, k = [], 0
    for p in model.params:
        if p.fixed: popt.append(p.value)
        else: popt.append(vals[k]); k += 1
    fun = obj(vals)
    res = FitResults(model, popt, None, None, obj, 'ok', fun=fun)
    want = {'objective_value': fun}
    if kind in ('LeastSquares', 'VectorLeastSquares'):
        chi2 = sum(float(np.sum(((FV[v.name] - data[v]) / data[model.sigmas[v]]) ** 2)) for v in dvs if data[v] is not None)
        rs = sum(float(np.sum((FV[v.name] - data[v]) ** 2)) for v in dvs if data[v] is not None)
        tot = sum(float(np.sum((data[v] - np.mean(data[v])) ** 2)) for v in dvs if data[v] is not None)
        want['chi_squared'] = chi2
        want['r_squared'] = 1 - rs / tot if tot else None
    if kind == 'LogLikelihood':
        L = sum(float(np.sum(np.log(FV[v.name]))) for v in dvs)
        want['log_likelihood'] = L; want['likelihood'] = np.exp(L)
    for q in ('objective_value', 'chi_squared', 'r_squared', 'log_likelihood', 'likelihood'):
        if q in want:
            if want[q] is None: continue
            close(getattr(res, q), want[q], 1e-9, q); close(res.gof_qualifiers[q], want[q], 1e-9, q)
        else:
            assert not hasattr(res, q), f'{q} present for {kind}'
            assert q not in res.gof_qualifiers
    for bad in ('nonsense', 'chi_square', 'gof', '_objective_value'):
        assert not hasattr(res, bad), bad
    return f'{kind} {describe(ps)} data={[data[v] is not None for v in dvs]}'


@check('C13', n=10)
def real_fit(rng):
    from symfit import Fit, Model, variables, exp
    from symfit.core.objectives import LogLikelihood
    from symfit.core import minimizers as M
    x, y = variables('x, y')
    kind = ['ls', 'minpack', 'll', 'min'][rng.case % 4]
    if kind == 'll':
        a, = mkparams(rng, 1, p_fixed=0, p_bound=0); xd = data_array(rng, (20,), .1, 3)
        res = Fit({y: exp(-x / a) / a}, x=xd, objective=LogLikelihood).execute()
        v = res.value(a)
        if v <= 0: raise Skip('no likelihood there')
        L = -np.sum(xd / v + np.log(v))
        close(res.log_likelihood, L, 1e-9); close(res.likelihood, np.exp(L), 1e-9); close(res.objective_value, -L, 1e-9)
    elif kind == 'min':
        a, = mkparams(rng, 1, p_fixed=0, p_bound=0); c = rng.uniform(-1, 1)
        res = Fit(Model({y: (a - c) ** 2 + c})).execute()
        close(float(np.squeeze(res.objective_value)), c, 1e-6); assert not hasattr(res, 'r_squared')
    else:
        a, b = mkparams(rng, 2, p_fixed=0.3, p_bound=0)
        xd = np.linspace(0, 1, 9); yd = 1.2 * xd + .4 + .1 * data_array(rng, (9,), -1, 1); s = rng.choice([1.0, 0.3])
        fit = Fit(Model({y: a * x + b}), x=xd, y=yd, sigma_y=s, minimizer=M.MINPACK if kind == 'minpack' else None)
        res = fit.execute()
        r = yd - res.value(a) * xd - res.value(b)
        close(res.chi_squared, np.sum((r / s) ** 2), 1e-9, 'chi2')
        close(res.r_squared, 1 - np.sum(r ** 2) / np.sum((yd - yd.mean()) ** 2), 1e-9, 'r2')
        if kind == 'ls': close(res.objective_value, np.sum((r / s) ** 2) / 2, 1e-9, 'objective')
    return kind


@check('C13', n=12)
def several_variables(rng):
    """Several independent variables, whatever their names: r_squared of the model at the reported values."""
    from symfit import Model, variables
    from symfit.core import objectives as O
    from symfit.core.fit_results import FitResults
    names = rng.sample(['x', 'X', 'u', 'B', 'z10', 'z9', 'T'], rng.randint(2, 4))
    xs = list(variables(','.join(names))); y, w = variables('y, W')
    ps = mkparams(rng, rng.randint(1, 3), p_fixed=.3)
    comps = [y, w][:rng.randint(1, 2)]
    md = {v: sum((p * xs[(i + k) % len(xs)] ** (1 + i) for i, p in enumerate(ps)), sp.Integer(0)) + sum(((i + 1) * x for i, x in enumerate(xs)), sp.Integer(0)) for k, v in enumerate(comps)}
    model = Model(md)
    data = {x: data_array(rng, (5,)) for x in xs}
    for v in comps: data[v] = data_array(rng, (5,)); data[model.sigmas[v]] = data_array(rng, (5,))
    obj = O.LeastSquares(model, data)
    popt = [p.value if p.fixed else rng.uniform(-1, 1) for p in model.params]
    res = FitResults(model, popt, None, None, obj, 'ok', fun=1.0)
    env = dict(zip([p.name for p in model.params], popt))
    rs = tot = 0.0
    for k, v in enumerate(comps):
        f = sum(env[p.name] * data[xs[(i + k) % len(xs)]] ** (1 + i) for i, p in enumerate(ps)) + sum((i + 1) * data[x] for i, x in enumerate(xs))
        rs += np.sum((data[v] - f) ** 2); tot += np.sum((data[v] - np.mean(data[v])) ** 2)
    close(res.r_squared, 1 - rs / tot, 1e-9, 'r_squared')
    return f'{names} {describe(ps)}'
