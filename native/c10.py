"""C10: finite differences of polynomials (exact up to degree six) and order of convergence."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, data_array
from native.c03 import varnames


def poly_model(rng, deg, ncomp=None):
    from symfit.core.models import BaseGradientModel, CallableNumericalModel
    class Num(BaseGradientModel, CallableNumericalModel): pass
    n = rng.randint(1, 4)
    ps = mkparams(rng, n, p_fixed=0.2)
    x, = varnames(rng, ['x'], 1)
    comps = varnames(rng, ['k', 'm', 'q', 'y'], ncomp or rng.randint(1, 3))
    shapes = {v.name: rng.choice([(4,), (3,), (2, 2), 'scalar']) for v in comps}
    co = {v.name: [[rng.uniform(-1, 1) for _ in range(deg + 1)] for _ in range(n)] for v in comps}
    names = [p.name for p in ps]
    def val(v, kw):
        s = shapes[v.name]
        base = np.arange(1.0, (int(np.prod(s)) if s != 'scalar' else 1) + 1).reshape(s if s != 'scalar' else ()) / 3
        r = 0.0
        for i, nm in enumerate(names): r = r + sum(c * (kw[nm]) ** k for k, c in enumerate(co[v.name][i])) * (base + i)
        if n > 1: r = r + kw[names[0]] * kw[names[1]] * base
        return r + np.sum(kw['x'])
    def dval(v, kw, i):
        s = shapes[v.name]
        base = np.arange(1.0, (int(np.prod(s)) if s != 'scalar' else 1) + 1).reshape(s if s != 'scalar' else ()) / 3
        r = sum(k * c * kw[names[i]] ** (k - 1) for k, c in enumerate(co[v.name][i]) if k) * (base + i)
        if n > 1 and i < 2: r = r + kw[names[1 - i]] * base
        return np.atleast_1d(r)
    model = Num({v: (lambda v: lambda **kw: val(v, kw))(v) for v in comps}, connectivity_mapping={v: set(ps) | {x} for v in comps})
    return model, ps, comps, dval


@check('C10', n=60)
def exact_for_polynomials(rng):
    model, ps, comps, dval = poly_model(rng, rng.randint(1, 6))
    kw = {p.name: rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-2, 2), 1e-9, rng.uniform(0.5, 1) * 1e3 if rng.random() < .05 else -1.0]) for p in ps}
    if rng.random() < .2: kw = {k: rng.randint(-3, 3) for k in kw}       # whole numbers
    kw['x'] = data_array(rng, (3,))
    jac = model.finite_difference(dx=rng.choice([0.05, 0.1, 0.2]), **kw)
    assert len(jac) == len(comps)
    for c, v in zip(jac, comps):
        want = np.array([dval(v, kw, i) for i in range(len(ps))])
        assert c.shape == want.shape, (c.shape, want.shape)
        scale = 1 + np.max(np.abs(want))
        close(c / scale, want / scale, 1e-7, f'component {v}')
    j2 = model.eval_jacobian(**kw)
    for c, v in zip(j2, comps):
        want = np.array([dval(v, kw, i) for i in range(len(ps))]); scale = 1 + np.max(np.abs(want))
        assert np.asarray(c).shape == want.shape
        small = [abs(kw[p.name]) < 1 for p in ps]
        close(np.asarray(c) / scale, want / scale, 1e-4, f'default step, component {v}')
    args = [kw['x']] + [kw[p.name] for p in ps]
    j3 = model.eval_jacobian(*args)
    for a, b in zip(j2, j3): close(a, b, 0)
    return f'{kw} {[v.name for v in comps]}'


@check('C10', n=10)
def order_of_convergence(rng):
    """Halving the step divides the error of an exponential by about 2**6."""
    from symfit.core.models import BaseGradientModel, CallableNumericalModel
    from symfit import Parameter, Variable
    class Num(BaseGradientModel, CallableNumericalModel): pass
    a = Parameter('a', value=1.0); x, y = Variable('x'), Variable('y')
    model = Num({y: lambda x, a: np.exp(a * x)}, connectivity_mapping={y: {x, a}})
    av = rng.choice([1.0, -1.0, 0.7]); xv = np.array([1.0, rng.uniform(1, 1.5)])
    err = [np.abs(model.finite_difference(x=xv, a=av, dx=h)[0][0] - xv * np.exp(av * xv)) for h in (0.4, 0.2)]
    q = np.log2(err[0] / err[1])
    assert np.all((q > 5.5) & (q < 6.8)), f'order {q}'
    return f'a={av}'
