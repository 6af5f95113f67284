"""C01: real minimizations; the result is compared with the optimizer's own raw output."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, describe
from native.c02 import Recorder


def MINIMIZERS():
    from symfit.core import minimizers as M
    return [M.BFGS, M.SLSQP, M.COBYLA, M.LBFGSB, M.NelderMead, M.Powell, M.TrustConstr, M.BasinHopping, M.DifferentialEvolution]


def free_ok(res, params, x):
    assert list(res.params) == [p.name for p in params], (list(res.params), [p.name for p in params])
    k = 0
    for p in params:
        if p.fixed:
            assert res.params[p.name] == p.value, f'fixed {p.name} reported as {res.params[p.name]!r}, fixed at {p.value!r}'
        else:
            assert res.params[p.name] == x[k], f'{p.name}: {res.params[p.name]!r}, optimizer found {x[k]!r}'
            k += 1
    assert k == len(x)
    assert len(res._popt) == len(params) and all(a == res.params[p.name] for a, p in zip(res._popt, params))
    for p in params: assert res.value(p) == res.params[p.name]
    # the result is that of this fit, whatever becomes of the parameters later
    was, before = [p.value for p in params], dict(res.params)
    try:
        for p in params: p.value = 77.25 if p.min is None and p.max is None else (p.max if p.min is None else p.min)
        assert dict(res.params) == before and all(res.value(p) == before[p.name] for p in params), 'the result changes with Parameter.value'
    finally:
        for p, v in zip(params, was): p.value = v


def execute(m):
    from symfit.core import minimizers as M
    opts = {}
    if isinstance(m, M.BasinHopping): opts = dict(niter=2)
    if isinstance(m, M.DifferentialEvolution): opts = dict(maxiter=3, popsize=5, seed=1)
    if isinstance(m, (M.TrustConstr,)): opts = dict(options={'maxiter': 15})
    return m.execute(**opts)


@check('C01', n=36)
def custom_objective(rng):
    """A user supplied objective, minimizer built directly, parameters in any order."""
    cls = MINIMIZERS()[rng.case % 9]
    n = rng.randint(1, 6)
    ps = mkparams(rng, n, p_bound={'DifferentialEvolution': 1.1, 'TrustConstr': 0}.get(cls.__name__, 0.4), wide=cls.__name__ not in ('DifferentialEvolution',) and rng.random() < 0.6)
    if rng.random() < 0.5: rng.shuffle(ps)
    c = {p.name: p.value + rng.uniform(-0.15, 0.15) for p in ps}
    seen = []
    def f(**kw):
        seen.append(dict(kw))
        return sum((i + 1) * (kw[p.name] - c[p.name]) ** 2 for i, p in enumerate(ps))
    kw = {}
    if cls.__name__ == 'TrustConstr':   # its own default ('cs') does not work with this scipy
        kw = dict(jacobian=lambda **kw: np.array([2 * (i + 1) * (kw[p.name] - c[p.name]) for i, p in enumerate(ps)]))
        kw['hessian'] = lambda **k: np.diag([2. * (i + 1) for i in range(n)])
    m = cls(f, ps, **kw)
    res = execute(m)
    x = np.atleast_1d(res.minimizer_output['x']) if 'x' in res.minimizer_output else None
    assert x is not None
    free_ok(res, ps, x)
    # the reported point is where the objective has the reported value
    val = sum((i + 1) * (res.params[p.name] - c[p.name]) ** 2 for i, p in enumerate(ps))
    close(float(np.squeeze(res.objective_value)), val, 1e-9, 'objective at the reported point')
    return f'{cls.__name__}: {describe(ps)}'


@check('C01', n=16)
def fit_pipeline(rng):
    """Through Fit, least squares and MINPACK, and chains."""
    from symfit import Fit, Model, variables
    from symfit.core import minimizers as M
    n = rng.randint(1, 5)
    ps = mkparams(rng, n, p_bound=0.3, wide=rng.random() < 0.5)
    x, y = variables('x, y')
    xd = np.linspace(0.1, 2, 12)
    true = [p.value if p.fixed else min(max(p.value + rng.uniform(-.2, .2), p.min if p.min is not None else -9), p.max if p.max is not None else 9) for p in ps]
    model = Model({y: sum(p * x ** (i + (n == 1)) for i, p in enumerate(ps))})
    yd = sum(t * xd ** (i + (n == 1)) for i, t in enumerate(true))
    mini = [M.MINPACK, None, [M.NelderMead, M.BFGS], [M.Powell, M.LBFGSB], M.BFGS, M.MINPACK, M.TrustConstr, M.SLSQP][rng.case % 8]
    fit = Fit(model, x=xd, y=yd, minimizer=mini)
    kw = dict(options={'maxiter': 30}) if mini is M.TrustConstr else {}
    res = fit.execute(**kw)
    free_ok(res, ps, np.atleast_1d(res.minimizer_output['x']))
    return f'{mini}: {describe(ps)}'


@check('C01', n=24)
def any_outcome(rng):
    """Whatever point the optimizer claims to have found (scipy replaced by a stand-in): also 0, the guess, or out of bounds."""
    from symfit.core import minimizers as M
    cls = (MINIMIZERS() + [M.MINPACK])[rng.case % 10]
    n = rng.randint(1, 6)
    ps = mkparams(rng, n, wide=True, odd=True, p_fixed=rng.choice([0, .3, .6]))
    rng.shuffle(ps)
    f = lambda **kw: sum(kw.values())
    if cls is M.MINPACK: f = lambda **kw: np.array(list(kw.values()))
    kw = dict(jacobian=lambda **k: np.ones(n), hessian=lambda **k: np.eye(n)) if cls is M.TrustConstr else {}
    m = cls(f, ps, **kw)
    free = [p for p in ps if not p.fixed]
    x = np.array([rng.choice([0.0, -0.0, p.value, rng.uniform(-5, 5), 1e-12, 1e6, 1.0]) for p in free])
    with Recorder() as R:
        R.x = lambda k: x
        res = m.execute()
    free_ok(res, ps, x)
    return f'{cls.__name__}: {describe(ps)} at {x}'
