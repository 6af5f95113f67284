"""C05: log-likelihood against its formula."""
import numpy as np
from native.base import check, close, Skip
from native.util import describe, numgrad, mkparams, data_array
from native.c04 import setup


@check('C05', n=60)
def arbitrary_model_values(rng):
    from symfit.core.objectives import LogLikelihood
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng)
    for v in dvs:
        data[v] = None; data[model.sigmas[v]] = None
        # linear in all parameters, and independent of the first
        if rng.random() < .15: HV[v.name][...] = 0; JV[v.name][:1] = 0
    if rng.random() < .25:
        # densities of any magnitude
        for v in dvs:
            s = np.array([10. ** rng.choice([0, -20, -9, 8, -40]) for _ in range(FV[v.name].size)]).reshape(FV[v.name].shape)
            FV[v.name] *= s; JV[v.name] *= s; HV[v.name] *= s
    obj = LogLikelihood(model, data)
    val, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    for v in dvs:
        f, J, HH = FV[v.name], JV[v.name], HV[v.name]
        val -= float(np.sum(np.log(f)))
        for i in range(n):
            g[i] -= np.sum(J[i] / f)
            for j in range(n):
                H[i, j] -= np.sum(HH[i, j] / f - J[i] * J[j] / f ** 2)
    close(float(obj(vals)), val, 1e-10, 'value')
    close(obj.eval_jacobian(vals), g, 1e-10, 'gradient')
    close(obj.eval_hessian(vals), H, 1e-10, 'Hessian')
    return f'{describe(ps)} {shapes}'


@check('C05', n=8)
def symbolic_model(rng):
    from symfit import Model, variables, exp, Parameter
    from symfit.core.objectives import LogLikelihood
    a, b = mkparams(rng, 2, p_fixed=0)
    x, y = variables('x, y')
    model = Model({y: exp(-x / a) / a + b ** 2})
    obj = LogLikelihood(model, {x: data_array(rng, (7,)), y: None, model.sigmas[y]: None})
    p0 = np.array([rng.uniform(0.8, 1.5) for _ in range(2)])
    close(obj.eval_jacobian(p0), numgrad(lambda p: float(obj(p)), p0), 1e-6, 'gradient')
    close(obj.eval_hessian(p0), numgrad(lambda p: obj.eval_jacobian(p), p0), 1e-6, 'Hessian')
    return str(p0)
