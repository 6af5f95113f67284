"""C02: what reaches scipy, recorded by stand-ins for the scipy entry points."""
import sys
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, describe


class Recorder:
    """Stands in for the scipy optimizers wherever the minimizers module refers to them."""
    def __init__(self):
        import scipy.optimize as so
        from symfit.core import minimizers as M
        self.calls = []
        self.saved = []
        for name in ('minimize', 'differential_evolution', 'basinhopping', 'least_squares'):
            real = getattr(so, name)
            for mod in [m for k, m in list(sys.modules.items()) if k.startswith('symfit') and m is not None] + [so]:
                for attr, v in list(vars(mod).items()):
                    if v is real:
                        self.saved.append((mod, attr, v))
                        setattr(mod, attr, self.stub(name))

    def stub(self, name):
        import inspect
        import scipy.optimize as so
        sig = inspect.signature(getattr(so, name)) if not any(a == name for _, a, _ in self.saved[:-1]) else None
        from scipy.optimize import OptimizeResult
        def f(fun, *a, **kw):
            names = {'minimize': ['x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol'],
                     'least_squares': ['x0', 'jac', 'bounds', 'method'], 'differential_evolution': ['bounds', 'args'],
                     'basinhopping': ['x0', 'niter', 'T', 'stepsize', 'minimizer_kwargs']}[name]
            d = dict(zip(names, a)); d.update(kw)
            self.calls.append((name, fun, d))
            n = len(d['x0']) if 'x0' in d else len(d['bounds'])
            x = np.arange(1.0, n + 1) / 3 if not hasattr(self, 'x') else np.array(self.x(n))
            r = OptimizeResult(x=x, fun=fun(x), message='stub', nit=3, nfev=4, success=True, niter=3)
            return r
        return f

    def __enter__(self): return self

    def __exit__(self, *a):
        for mod, attr, v in reversed(self.saved): setattr(mod, attr, v)


def CLS():
    from symfit.core import minimizers as M
    return [M.BFGS, M.SLSQP, M.COBYLA, M.LBFGSB, M.NelderMead, M.Powell, M.TrustConstr, M.BasinHopping, M.DifferentialEvolution, M.MINPACK]


@check('C02', n=60)
def handed_over(rng):
    """x0, bounds, jac, hess as scipy receives them, against the free entries of the full ones."""
    from symfit.core import minimizers as M
    cls = CLS()[rng.case % 10]
    n = rng.randint(1, 7)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, 0.3, 0.6]), p_bound=0.5, wide=True, odd=True)
    free = [i for i, p in enumerate(ps) if not p.fixed]
    J = np.array([rng.uniform(-5, 5) for _ in range(n)])
    H = np.array([[rng.uniform(-5, 5) for _ in range(n)] for _ in range(n)])
    RJ = np.array([[rng.uniform(-5, 5) for _ in range(n)] for _ in range(9)])
    point = []
    def f(**kw): point.append(kw); return sum(kw.values())
    def jac(**kw): return RJ if cls is M.MINPACK else J
    def hess(**kw): return H
    opts = {}
    if issubclass(cls, M.GradientMinimizer): opts['jacobian'] = jac
    if issubclass(cls, M.HessianMinimizer): opts['hessian'] = hess
    if cls is M.MINPACK:
        # residual Jacobian: only the resizing is at stake, so hand it in as an objective method would be
        from symfit.core.objectives import VectorLeastSquares
        opts.pop('jacobian')
        from symfit import Model, variables
        x, y = variables('x, y')
        model = Model({y: sum(p * x ** i * (i + 1) for i, p in enumerate(ps)) ** 2})
        N = rng.choice([9, n, 1, n + 1])   # as many data as parameters, as well
        xd = np.linspace(0.2, 1.5, N)
        obj = VectorLeastSquares(model, {x: xd, y: np.ones(N), model.sigmas[y]: np.ones(N)})
        ps = model.params
        m = cls(obj, ps, jacobian=obj.eval_jacobian)
    else:
        m = cls(f, ps, **opts)
    guess = None
    if rng.random() < 0.3 and cls is not M.DifferentialEvolution:
        guess = [rng.uniform(0, 1) for _ in free]
        m.initial_guesses = guess
    with Recorder() as R:
        if cls is M.BasinHopping: m.execute(niter=1)
        else: m.execute()
    assert len(R.calls) == 1, [c[0] for c in R.calls]
    name, fun, d = R.calls[0]
    want0 = guess if guess is not None else [ps[i].value for i in free]
    if 'x0' in d:
        assert list(np.atleast_1d(d['x0'])) == list(want0), f'x0 {d["x0"]}'
    bnd = [(ps[i].min, ps[i].max) for i in free]
    if issubclass(cls, M.BoundedMinimizer) or d.get('bounds') is not None:
        if cls is M.MINPACK:
            lo, hi = d['bounds']
            assert list(lo) == [-np.inf if b[0] is None else b[0] for b in bnd], (lo, bnd)
            assert list(hi) == [np.inf if b[1] is None else b[1] for b in bnd], (hi, bnd)
        else:
            assert [tuple(b) for b in d['bounds']] == bnd, (d['bounds'], bnd)
    x = [rng.uniform(0.5, 2) for _ in free]
    if cls is M.BasinHopping:
        mk = d['minimizer_kwargs']
        assert mk['method'] == 'BFGS', mk
    if cls is M.MINPACK:
        got = np.asarray(d['jac'](np.array(x)))
        full = [p.value for p in ps]
        for i, v in zip(free, x): full[i] = v
        s = sum(v * xd ** i * (i + 1) for i, v in enumerate(full))
        r = 1 - s ** 2
        want = np.array([-np.sign(r) * 0 + np.sign(-r) * 2 * s * xd ** i * (i + 1) for i in free]).T
        close(got, want, 1e-8, 'residual Jacobian')
    else:
        if issubclass(cls, M.GradientMinimizer) and callable(d.get('jac')):
            close(np.asarray(d['jac'](np.array(x))), J[free], 0, 'gradient')
        if issubclass(cls, M.HessianMinimizer):
            close(np.asarray(d['hess'](np.array(x))), H[np.ix_(free, free)], 0, 'Hessian')
        if issubclass(cls, M.GradientMinimizer): assert callable(d['jac'])
        if issubclass(cls, M.HessianMinimizer): assert callable(d['hess'])
        point.clear(); fun(np.array(x))
        want = {p.name: p.value for p in ps}
        for i, v in zip(free, x): want[ps[i].name] = v
        assert point[-1] == want, (point[-1], want)
    return f'{cls.__name__}: {describe(ps)}'
