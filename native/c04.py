"""C04: least squares against the textbook formula and its numerical derivatives; chosen model arrays."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array, dep_array, numgrad
from native.c03 import recording_model, varnames


def setup(rng, cls=None, same_shape=False, nd=None, some_data=True):
    n = rng.randint(1, 4)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, 0.4]), wide=True)
    ivs = varnames(rng, ['t', 'u', 'x'], rng.randint(0, 1))
    dvs = varnames(rng, ['m', 'q', 'y', 'z'], nd or rng.randint(1, 3))
    inter = varnames(rng, ['k', 'w'], rng.randint(0, 1))
    shp = rng.choice([(4,), (2, 3), (1,)])
    shapes = {v.name: shp if same_shape else rng.choice([(4,), (3,), (2, 3), (1,), (2, 1, 2), (3, 1), (1, 2)]) for v in dvs}
    shapes.update({v.name: (2,) for v in inter})
    log = []
    model, FV, JV, HV = recording_model(rng, ps, ivs, dvs, shapes, log, inter)
    if len(dvs) > 1 and rng.random() < 0.2:
        # two components that are alike, or one that depends on nothing
        a, b = dvs[:2]
        if shapes[a.name] == shapes[b.name] and rng.random() < .7: FV[b.name][...] = FV[a.name]; JV[b.name][...] = JV[a.name]; HV[b.name][...] = HV[a.name]
        else: JV[b.name][...] = 0; HV[b.name][...] = 0
    if rng.random() < 0.1: JV[dvs[0].name][:1] = 0
    if rng.random() < 0.1: JV[dvs[-1].name][...] = 0; HV[dvs[-1].name][...] = rng.choice([0, 1])
    for v in dvs: HV[v.name][:] = HV[v.name] + np.swapaxes(HV[v.name], 0, 1)
    data = {v: data_array(rng, (4,)) for v in ivs}
    has = [rng.random() < 0.75 for _ in dvs]
    if some_data and not any(has): has[0] = True
    for v, h in zip(dvs, has):
        data[v] = dep_array(rng, shapes[v.name]) if h else None
        data[model.sigmas[v]] = data_array(rng, shapes[v.name], 0.3, 2, scales=True) if h else None
        if h and rng.random() < 0.15: data[v] = FV[v.name].copy()   # a perfect fit of this component
        if h and rng.random() < 0.15: data[model.sigmas[v]] = data[model.sigmas[v]] * np.array([rng.choice([-1, 1]) for _ in range(FV[v.name].size)]).reshape(FV[v.name].shape)
    if rng.random() < .15:
        # everything stored by columns
        for v in dvs:
            FV[v.name] = np.asfortranarray(FV[v.name])
            for k in (v, model.sigmas[v]): data[k] = None if data[k] is None else np.asfortranarray(data[k])
    free = [p for p in model.params if not p.fixed]
    vals = [rng.uniform(-2, 2) for _ in free]
    return n, ps, dvs, model, FV, JV, HV, data, vals, shapes


@check('C04', n=60)
def arbitrary_model_values(rng):
    """Model value, Jacobian and Hessian chosen independently: the objective must combine them as the calculus says."""
    from symfit.core.objectives import LeastSquares
    n, ps, dvs, model, FV, JV, HV, data, vals, shapes = setup(rng)
    obj = LeastSquares(model, data)
    per, g, H = [], np.zeros(n), np.zeros((n, n))
    for v in dvs:
        if data[v] is None: per.append(0.0); continue
        s = data[model.sigmas[v]]; r = (FV[v.name] - data[v]) / s
        per.append(0.5 * float(np.sum(r ** 2)))
        for i in range(n):
            g[i] += np.sum(r * JV[v.name][i] / s)
            for j in range(n):
                H[i, j] += np.sum(JV[v.name][i] * JV[v.name][j] / s ** 2 + r * HV[v.name][i, j] / s)
    close(float(obj(vals)), sum(per), 1e-10, 'value')
    close([float(x) for x in obj(vals, flatten_components=False)], per, 1e-10, 'value per component')
    close(obj.eval_jacobian(vals), g, 1e-10, 'gradient')
    close(obj.eval_hessian(vals), H, 1e-10, 'Hessian')
    return f'{describe(ps)} {shapes} data={[data[v] is not None for v in dvs]}'


@check('C04', n=10)
def symbolic_model(rng):
    """A real symbolic model: derivatives of the objective itself."""
    from symfit import Model, variables
    from symfit.core.objectives import LeastSquares
    import sympy as sp
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=0)
    x, y, z = variables('x, y, z')
    e1 = ps[0] * sp.exp(-ps[-1] * x / 4) + ps[n // 2] * x
    e2 = ps[-1] ** 2 * x + sp.sin(ps[0])
    model = Model({y: e1, z: e2})
    xd = data_array(rng, (5,))
    data = {x: xd, y: data_array(rng, (5,)), z: data_array(rng, (5,)), model.sigmas[y]: data_array(rng, (5,)), model.sigmas[z]: data_array(rng, (5,))}
    obj = LeastSquares(model, data)
    p0 = np.array([rng.uniform(0.5, 1.5) for _ in ps])
    close(obj.eval_jacobian(p0), numgrad(lambda p: float(obj(p)), p0), 1e-6, 'gradient')
    close(obj.eval_hessian(p0), numgrad(lambda p: obj.eval_jacobian(p), p0), 1e-6, 'Hessian')
    return describe(ps)
