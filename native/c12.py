"""C12: covariance matrices and their accessors."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip, Finding
from native.util import mkparams, describe, data_array, numgrad


def make_fit(rng, objective=None, ncomp=None, distinct=True, mcls=None):
    from symfit import Fit, Model, variables
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, .3]), p_bound=0)
    ncomp = ncomp or rng.randint(1, 2)
    x1, x2, y1, y2 = variables('x1, x2, y1, y2')
    N = [rng.choice([5, 6]), rng.choice([7, 8])]
    if not distinct: N[1] = N[0]
    md, data = {}, {}
    for x, y, k, c in zip((x1, x2), (y1, y2), N, range(ncomp)):
        md[y] = sum((p * x ** (i + c) for i, p in enumerate(ps)), sp.Integer(0)) + (sp.sin(ps[0]) * x ** 3 / 3)
        xd = np.linspace(0.3, 1.7, k) + c / 7
        data[x.name] = xd
        data[y.name] = sum(p.value * xd ** (i + c) for i, p in enumerate(ps)) + np.sin(ps[0].value) * xd ** 3 / 3 + 0.1 * data_array(rng, (k,), -1, 1)
    return ps, md, data, N[:ncomp]


@check('C12', n=30)
def least_squares(rng):
    from symfit import Fit, Model, CallableModel, GradientModel
    from symfit.core import minimizers as M
    from symfit.core.models import HessianModel
    mini = rng.choice([None, M.MINPACK, M.LBFGSB])
    distinct = rng.random() < 0.8
    ps, md, data, N = make_fit(rng, distinct=distinct or mini is M.MINPACK, ncomp=1 if mini is M.MINPACK else None)
    sig = rng.choice(['none', 'given', 'relative'])
    dn = [k for k in data if k.startswith('y')]
    s = {}
    if sig != 'none':
        for k in dn: s['sigma_' + k] = rng.choice([0.3, 2.0]) if rng.random() < .5 else data_array(rng, data[k].shape, .5, 2)
    gn = rng.random() < 0.25
    model = (GradientModel if gn else Model)(md)
    fit = Fit(model, minimizer=mini, absolute_sigma=False if sig == 'relative' else None, **data, **s)
    res = fit.execute()
    P = np.array([res.value(p) for p in ps])
    def resid(p):
        out = []
        for i, k in enumerate(dn):
            xd = data['x' + k[1:]]; c = int(k[1:]) - 1
            f = sum(v * xd ** (j + c) for j, v in enumerate(p)) + np.sin(p[0]) * xd ** 3 / 3
            out.append((f - data[k]) / s.get('sigma_' + k, 1.0))
        return np.concatenate(out)
    S = lambda p: 0.5 * np.sum(resid(p) ** 2)
    H = numgrad(lambda q: numgrad(S, q, 5e-3), P, 5e-3)
    J = numgrad(resid, P, 5e-3)
    if gn or mini is M.MINPACK: H = J @ J.T
    s2 = 1.0 if sig == 'given' else 2 * S(P) / (sum(N) - len(ps))
    want = s2 * np.linalg.inv(H)
    got = res.covariance_matrix
    scale = np.max(np.abs(want))
    if len(N) == 2 and N[0] == N[1] and sig != 'given':
        other = want * (sum(N) - len(ps)) / (N[0] - len(ps))
        if not np.allclose(got / scale, want / scale, atol=1e-4):
            if np.allclose(got / scale, other / scale, atol=1e-3): raise Finding('dof-equal-shapes', f'{N} data points, {len(ps)} parameters: scaled with {N[0]} points')
    close(got / scale, want / scale, 1e-4, f'covariance ({sig}, {mini}, {N} points)')
    for i, p in enumerate(ps):
        close(res.variance(p), got[i, i], 0); close(res.stdev(p), np.sqrt(got[i, i]), 1e-12)
        for j, q in enumerate(ps): close(res.covariance(p, q), got[i, j], 0)
    return f'{describe(ps)} {sig} {mini} {N}'


@check('C12', n=12)
def dof_known(rng):
    """Two components with equally many points and relative sigmas (see known_findings.jsonl)."""
    from symfit import Fit, Model
    ps, md, data, N = make_fit(rng, distinct=False, ncomp=2)
    model = Model(md)
    fit = Fit(model, **data)
    rel = fit.execute().covariance_matrix
    ab = Fit(Model(md), absolute_sigma=True, **data).execute()
    rss = sum(np.sum((ab.objective.data[y] - f) ** 2) for y, f in zip(model.dependent_vars, model(**{k: v for k, v in data.items() if k[0] == 'x'}, **ab.params)))
    want = ab.covariance_matrix * rss / (sum(N) - len(ps)); scale = np.max(np.abs(want))
    if np.allclose(rel / scale, want / scale, atol=1e-4): return 'ok'
    if np.allclose(rel / scale, want / scale * (sum(N) - len(ps)) / (N[0] - len(ps)), atol=1e-3): raise Finding('dof-equal-shapes', f'{N} data points')
    raise AssertionError((rel, want))


@check('C12', n=10)
def other_objectives(rng):
    """Likelihood and model minimization: the inverse Hessian, never rescaled."""
    from symfit import Fit, Model, variables, exp
    from symfit.core.objectives import LogLikelihood
    x, y = variables('x, y')
    if rng.random() < 0.5:
        a, = mkparams(rng, 1, p_fixed=0, p_bound=0); a.min = 0.01
        xd = data_array(rng, (30,), 0.1, 3)
        res = Fit({y: exp(-x / a) / a}, x=xd, objective=LogLikelihood).execute()
        S = lambda p: np.sum(xd / p[0] + np.log(p[0])); ps = [a]
    else:
        n = rng.randint(1, 3)
        ps = mkparams(rng, n, p_fixed=0, p_bound=0)
        A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]); A = A @ A.T + np.eye(n)
        res = Fit(Model({y: sum((A[i, j] * ps[i] * ps[j] for i in range(n) for j in range(n)), sp.Integer(0))})).execute()
        S = lambda p: p @ A @ p
    P = np.array([res.value(p) for p in ps])
    H = numgrad(lambda q: numgrad(S, q, 1e-3), P, 1e-3)
    close(res.covariance_matrix, np.linalg.inv(H), 1e-3, 'covariance')
    return describe(ps)


@check('C12', n=40)
def reported_anywhere(rng):
    """Whatever point the minimizer reports: the inverse Hessian there, definite or not."""
    from symfit import Fit, Model, variables
    from symfit.core import minimizers as M
    from symfit.core.fit_results import FitResults
    from symfit.core.objectives import MinimizeModel, LeastSquares
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=0, p_bound=0)
    point = np.array([rng.uniform(-2, 2) for _ in ps])
    class Mine(M.BaseMinimizer):
        def execute(self, **kw):
            return FitResults(M.DummyModel(params=self.parameters), list(point), None, None, self.objective, 'ok', fun=1.0)
    x, y = variables('x, y')
    if rng.random() < .6:
        A = np.array([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(n)]); A = A + A.T
        fit = Fit(Model({y: sum((A[i, j] * ps[i] * ps[j] for i in range(n) for j in range(n)), sp.Integer(0)) / 2}), minimizer=Mine)
        H, s2, ndata = A, 1.0, None
    else:
        k = rng.randint(n + 1, 6)
        sh = (k // 2, 2) if k % 2 == 0 and rng.random() < .5 else (k,)       # tables of data too
        X = data_array(rng, sh, .5, 2); Y = data_array(rng, sh, -3, 3)
        ss = rng.choice([None, 0.5, data_array(rng, sh, .3, 2)])
        fit = Fit(Model({y: sum((p ** 2 * x ** (i + 1) for i, p in enumerate(ps)), sp.Integer(0))}), minimizer=Mine, x=X, y=Y, **({} if ss is None else {'sigma_y': ss}))
        s = 1.0 if ss is None else ss
        S = lambda p: .5 * np.sum(((sum(v ** 2 * X ** (i + 1) for i, v in enumerate(p)) - Y) / s) ** 2)
        r = sum(v ** 2 * X ** (i + 1) for i, v in enumerate(point)) - Y
        J = (np.array([2 * v * X ** (i + 1) for i, v in enumerate(point)]) / s).reshape(n, -1)
        H = J @ J.T + np.diag([np.sum(2 * X ** (i + 1) * r / s ** 2) for i in range(n)])
        s2 = 1.0 if ss is not None else np.sum(r ** 2) / (k - n)
    if np.linalg.cond(H) > 1e6: raise Skip('nearly singular')
    C = fit.execute().covariance_matrix
    close(C, s2 * np.linalg.inv(H), 1e-6, 'covariance')
    return f'{describe(ps)} at {point}'


@check('C12', n=12)
def accessors(rng):
    from symfit.core.fit_results import FitResults
    from symfit.core.minimizers import DummyModel
    from symfit.core.objectives import MinimizeModel
    from symfit import Model, variables
    n = rng.randint(1, 5)
    ps = mkparams(rng, n)
    y, = variables('y')
    model = Model({y: sum((p ** 2 for p in ps), sp.Integer(0))})
    C = np.array([[rng.uniform(-.5, 2) for _ in range(n)] for _ in range(n)])
    res = FitResults(model, [p.value for p in ps], C, None, MinimizeModel(model, data={}), 'ok', fun=1.0)
    none = FitResults(model, [p.value for p in ps], None, None, MinimizeModel(model, data={}), 'ok', fun=1.0)
    for i, p in enumerate(ps):
        assert res.variance(p) == C[i, i] and (C[i, i] < 0 or abs(res.stdev(p) - np.sqrt(C[i, i])) < 1e-14), (p, C[i, i], res.variance(p))
        assert none.variance(p) is None and none.stdev(p) is None
        for j, q in enumerate(ps):
            assert res.covariance(p, q) == C[i, j], (p, q)
            assert none.covariance(p, q) is None
    return describe(ps)


@check('C12', n=4)
def no_matrix(rng):
    """A singular Hessian gives no covariance matrix rather than a wrong one."""
    from symfit import Fit, Model, variables
    a, b = mkparams(rng, 2, p_fixed=0, p_bound=0)
    y, = variables('y')
    res = Fit(Model({y: (a + b) ** 2})).execute()
    assert res.covariance_matrix is None and res.stdev(a) is None and res.covariance(a, b) is None
    return 'singular'
