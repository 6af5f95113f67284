"""C11: the constraints as scipy receives them."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array, numgrad, npeval
from native.c02 import Recorder


def captured(m, cls):
    """The constraint list handed to scipy."""
    with Recorder() as R:
        m.execute()
    return [c for c in R.calls][-1][2]['constraints']


def norm(con):
    """(kind, fun, jac, hess) of a scipy constraint in either format."""
    from scipy.optimize import NonlinearConstraint
    if isinstance(con, NonlinearConstraint):
        lb, ub = float(np.squeeze(con.lb)), float(np.squeeze(con.ub))
        assert lb == 0 and ub in (0, np.inf), (lb, ub)
        return ('eq' if ub == 0 else 'ineq'), con.fun, con.jac, (lambda x, h=con.hess: np.asarray(h(x, np.array([1.0])))) if callable(con.hess) else None
    return con['type'], con['fun'], con.get('jac'), None


def rand_relation(rng, ps, comps, which=None):
    from symfit import Ge, Le, Eq
    rel = rng.choice([Ge, Le, Eq])
    sub = rng.sample(ps, rng.randint(1, len(ps)))
    lhs = sum(((i + 1) * p ** rng.randint(1, 3) for i, p in enumerate(sub)), sp.Integer(0))
    rhs = rng.choice([sp.Float(round(rng.uniform(0.2, 4), 3))] * 3 + [sp.Float(round(rng.uniform(-4, -.2), 3)), -2 * sp.sqrt(2), sp.pi / 3, -sp.Rational(3, 7) * sp.sqrt(5)])
    if rng.random() < 0.4: rhs = rhs + rng.choice(ps) * rng.choice(ps)
    if comps and rng.random() < 0.5: lhs = lhs + rng.choice(comps) * rng.choice(ps)
    if rng.random() < 0.25:      # a single product against zero
        lhs, rhs = rng.choice([-2, -0.5, -1, 3]) * sp.prod(sub) * rng.choice([1, rng.choice(ps)]), sp.Integer(0)
    if rng.random() < 0.3: lhs, rhs = rhs, lhs
    r = rel(lhs, rhs)
    if r in (True, False, sp.true, sp.false): raise Skip()
    return r


@check('C11', n=36, limit=90)
def handed_to_scipy(rng):
    from symfit import Fit, Model, variables, CallableModel, GradientModel
    from symfit.core import minimizers as M
    cls = [M.SLSQP, M.COBYLA, M.TrustConstr][rng.case % 3]
    n = rng.randint(2, 4)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, 0.4]), p_bound=0)
    x, y, s = variables('x, y, s')
    md = {y: sum((p * x ** i for i, p in enumerate(ps)), sp.Integer(0))}
    scalar = rng.random() < 0.5
    comps = []
    if scalar:   # a component free of data, usable in constraints
        md = {y: s ** 2 + sum((p ** 2 for p in ps), sp.Integer(0)), s: ps[0] * ps[-1] + sp.sin(ps[0])}
        comps = [s]
    mcls = rng.choice([Model, Model, GradientModel, CallableModel])
    if cls is M.TrustConstr: mcls = rng.choice([Model, GradientModel, CallableModel])
    model = mcls(md)
    cons = [rand_relation(rng, ps, comps) for _ in range(rng.randint(1, 4))]
    data = {} if scalar else dict(x=np.linspace(0, 1, 5), y=np.ones(5))
    direct = rng.random() < 0.2 and not scalar
    from symfit.core.objectives import MinimizeModel
    fit = Fit(model, minimizer=cls, constraints=cons, objective=MinimizeModel if scalar else None, **data)
    m = fit.minimizer
    if direct: m = cls(fit.objective, model.params, constraints=cons)
    got = captured(m, cls)
    assert len(got) == len(cons), (len(got), len(cons))
    free = [p for p in model.params if not p.fixed]
    for rel, con in zip(cons, got):
        kind, fun, jac, hess = norm(con)
        assert kind == ('eq' if isinstance(rel, sp.Eq) else 'ineq'), (kind, rel)
        def g(xv):
            env = {p.name: p.value for p in ps}; env.update({p.name: v for p, v in zip(free, xv)})
            env['s'] = env[ps[0].name] * env[ps[-1].name] + np.sin(env[ps[0].name])
            return float(npeval(rel.lhs, env) - npeval(rel.rhs, env))
        for _ in range(4):
            xv = np.array([rng.uniform(-1.5, 1.5) for _ in free])
            v, w = float(np.squeeze(fun(xv))), g(xv)
            if isinstance(rel, sp.Eq): assert (abs(v) < 1e-9) == (abs(w) < 1e-9), (rel, xv, v, w)
            elif isinstance(rel, sp.Ge): assert (v >= 0) == (w >= 0) or abs(w) < 1e-9, (rel, xv, v, w)
            else: assert (v >= 0) == (w <= 0) or abs(w) < 1e-9, (rel, xv, v, w)
        F = lambda z: float(np.squeeze(fun(np.asarray(z))))
        if callable(jac):
            close(np.asarray(jac(xv)).reshape(-1), numgrad(F, xv), 1e-5, f'Jacobian of {rel}')
        else: assert mcls is CallableModel or cls is M.COBYLA, (jac, mcls)
        if hess is not None:
            close(hess(xv), numgrad(lambda z: numgrad(F, z, 5e-3), xv, 5e-3), 2e-4, f'Hessian of {rel}')
            # scipy asks for the Hessian times its multiplier, of either sign
            for v in (-1.5, 0.0, 2.0): close(np.asarray(con.hess(xv, np.array([v]))), v * np.asarray(hess(xv)), 1e-12, f'Hessian of {rel} times {v}')
        else: assert cls is not M.TrustConstr or mcls is not Model
    return f'{cls.__name__} {mcls.__name__} {describe(ps)} {cons}'


@check('C11', n=12)
def on_the_boundary(rng):
    """Points exactly on the boundary satisfy the (non-strict) relation for the optimizer."""
    from symfit import Model, Ge, Le, Eq, variables
    from symfit.core.objectives import MinimizeModel
    a, b = mkparams(rng, 2, p_fixed=0)
    y, = variables('y')
    model = Model({y: a + b ** 2})
    c = rng.randint(1, 5)
    for rel in (Ge(a * b, c), Le(a * b, c), Eq(a * b, c), Le(c, a * b), Ge(c, a * b)):
        con = Model.as_constraint(rel, model)
        assert con.params == model.params
        obj = MinimizeModel(con, data={})
        k = rng.choice([1.0, 2.0, 0.5])
        assert float(np.squeeze(obj([k * c, 1 / k]))) == 0.0, rel
        assert list(con.params) == [a, b]
    return f'c={c}'


@check('C11', n=16)
def other_relations_refused(rng):
    from symfit import Model, variables, Fit, CallableModel
    from symfit.core.models import ModelError
    ps = mkparams(rng, 2, p_fixed=0)
    y, x = variables('y, x')
    model = Model({y: ps[0] + ps[1] ** 2})
    rel = rng.choice([sp.Gt, sp.Lt, sp.Ne])(ps[0] * ps[1], 2)
    if rng.random() < 0.5: rel = rng.choice([sp.Gt, sp.Lt, sp.Ne])(ps[1], rng.randint(-2, 3))
    for f in (lambda: Model.as_constraint(rel, model), lambda: Fit(model, constraints=[rel]), lambda: CallableModel.as_constraint(rel, model)):
        try: f()
        except ModelError: continue
        raise AssertionError(f'{rel} accepted')
    from symfit import Parameter
    other = Parameter('other')
    try: Model.as_constraint(sp.Ge(other * ps[0], 1), model)
    except ModelError: return str(rel)
    raise AssertionError('constraint with a parameter the model does not have was accepted')


@check('C11', n=10)
def constraint_models_given_directly(rng):
    """Constraints handed to a minimizer as models: accepted over the same parameters only."""
    from symfit import Model, Ge, Le, Eq, Parameter, variables
    from symfit.core import minimizers as M
    from symfit.core.objectives import LeastSquares
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=0, p_bound=0)
    x, y = variables('x, y')
    model = Model({y: sum((p * x ** i for i, p in enumerate(ps)), sp.Integer(0))})
    data = {x: np.linspace(0, 1, 4), y: np.ones(4), model.sigmas[y]: np.ones(4)}
    obj = LeastSquares(model, data)
    cls = rng.choice([M.SLSQP, M.COBYLA, M.TrustConstr])
    rels = [rand_relation(rng, ps, []) for _ in range(rng.randint(1, 3))]
    as_models = rng.random() < 0.5
    m = cls(obj, list(ps), constraints=[Model.as_constraint(r, model) if as_models else r for r in rels])
    got = captured(m, cls)
    assert len(got) == len(rels)
    for rel, con in zip(rels, got):
        kind, fun, jac, hess = norm(con)
        assert kind == ('eq' if isinstance(rel, sp.Eq) else 'ineq'), (kind, rel)
        xv = np.array([rng.uniform(-1.5, 1.5) for _ in ps])
        w = float(npeval(rel.lhs, dict(zip([p.name for p in ps], xv))) - npeval(rel.rhs, dict(zip([p.name for p in ps], xv))))
        close(abs(float(np.squeeze(fun(xv)))), abs(w), 1e-9, str(rel))
        assert isinstance(rel, sp.Eq) or (float(np.squeeze(fun(xv))) >= 0) == (w >= 0 if isinstance(rel, sp.Ge) else w <= 0) or abs(w) < 1e-9
    qs = [Parameter('q' + p.name) for p in ps]
    foreign = Model.as_constraint(Ge(qs[0], 1), Model({y: sum((p * x ** i for i, p in enumerate(qs)), sp.Integer(0))}))
    try:
        m = cls(obj, list(ps), constraints=[foreign]); captured(m, cls)
    except AssertionError: return f'{cls.__name__} {rels}'
    raise AssertionError('a constraint over other parameters was accepted')


@check('C11', n=10)
def numerical_constraint(rng):
    """Constraints of models made of callables: negation, dependencies, pairing."""
    from symfit import CallableNumericalModel, Fit, variables, Ge, Le
    from symfit.core import minimizers as M
    n = rng.randint(2, 3)
    ps = mkparams(rng, n, p_fixed=0.2, p_bound=0)
    x, y, z = variables('x, y, z')
    names = [p.name for p in ps]
    f = lambda **k: sum((i + 1) * k[q] for i, q in enumerate(names))
    model = CallableNumericalModel({y: f}, connectivity_mapping={y: set(ps)})
    neg = -model
    vals = {q: rng.uniform(-2, 2) for q in names}
    close(float(neg(**vals)[0][0]), -f(**vals), 1e-12, 'negated model')
    close(float(model(**vals)[0][0]), f(**vals), 1e-12, 'the original is unchanged')
    two = CallableNumericalModel({z: lambda y, **k: 2 * y + k[names[0]], y: f}, connectivity_mapping={z: {y, ps[0]}, y: set(ps)})
    close([float(v[0]) for v in (-two)(**vals)], [f(**vals), -(2 * f(**vals) + vals[names[0]])], 1e-12, 'negated interdependent model')
    for typ, sign in ((sp.Ge, 1), (sp.Le, -1)):
        con = CallableNumericalModel.as_constraint({z: lambda **k: k[names[0]] - 1.5}, model, typ, connectivity_mapping={z: {ps[0]}})
        assert con.params == model.params and con.constraint_type is sp.Ge
        close(float(con(**vals)[0][0]), sign * (vals[names[0]] - 1.5), 1e-12, str(typ))
    return str(vals)
