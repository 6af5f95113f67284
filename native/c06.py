"""C06: residual vectors, model minimization, Gauss-Newton Hessian."""
import numpy as np
from native.base import check, close, Skip
from native.util import describe, data_array
from native.c04 import setup


@check('C06', n=50)
def residual_vector(rng):
    from symfit.core.objectives import VectorLeastSquares
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng, same_shape=True)
    obj = VectorLeastSquares(model, data)
    S, D = 0.0, [0.0] * n
    for v in dvs:
        if data[v] is None: continue
        s = data[model.sigmas[v]]; r = (FV[v.name] - data[v]) / s
        S = S + r ** 2
        for i in range(n): D[i] = D[i] + r * JV[v.name][i] / s
    R = np.sqrt(S)
    close(np.asarray(obj(vals)), R.flatten(), 1e-10, 'residuals')
    # where the residual vanishes its root has no derivative
    some = R.flatten() > 0
    close(obj.eval_jacobian(vals)[some], np.array([(d.flatten()[some] / R.flatten()[some]) for d in D]).T, 1e-9, 'residual Jacobian')
    return f'{describe(ps)} {shapes} data={[data[v] is not None for v in dvs]}'


@check('C06', n=30)
def model_minimization(rng):
    from symfit.core.objectives import MinimizeModel
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng)
    for v in dvs: data[v] = None; data[model.sigmas[v]] = None
    if len(dvs) > 1:
        try: MinimizeModel(model, data)
        except TypeError: return 'refused'
        raise AssertionError(f'model with {len(dvs)} dependent variables accepted')
    obj = MinimizeModel(model, data)
    v = dvs[0].name
    close(obj(vals), FV[v], 0, 'value'); close(obj.eval_jacobian(vals), JV[v], 0, 'gradient'); close(obj.eval_hessian(vals), HV[v], 0, 'Hessian')
    return f'{describe(ps)} {shapes}'


@check('C06', n=20)
def gauss_newton(rng):
    """The objective used for error estimation when there is no Hessian: J^T J of the weighted residuals."""
    from symfit.core.objectives import LeastSquares, HessianObjectiveJacApprox
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng)
    class Approx(LeastSquares, HessianObjectiveJacApprox): pass
    obj = Approx(model, data)
    H = np.zeros((n, n))
    for v in dvs:
        if data[v] is None: continue
        s = data[model.sigmas[v]]
        for i in range(n):
            for j in range(n): H[i, j] += np.sum(JV[v.name][i] * JV[v.name][j] / s ** 2)
    close(obj.eval_hessian(vals), H, 1e-10, 'Gauss-Newton Hessian')
    return f'{describe(ps)} {shapes}'
