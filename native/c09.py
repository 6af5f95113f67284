"""C09: Jacobians and Hessians of random models against numerical derivatives of an independent evaluator."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import data_array, numgrad
from native.c08 import random_dag, evaluate


def point(rng, ivs, ps, shape=(3,)):
    env = {x.name: data_array(rng, shape, 0.2, 1.2) for x in ivs}
    p0 = np.array([rng.uniform(-1.0, 1.0) for _ in ps])
    return env, p0


def comp(d, order, env, ps, v, shape):
    names = [p.name for p in ps]
    return lambda p: np.broadcast_to(np.asarray(evaluate(d, order, {**env, **dict(zip(names, p))})[v.name], dtype=float), shape)


@check('C09', n=24, limit=90)
def derivatives(rng):
    from symfit import Model
    from symfit.core.models import GradientModel, HessianModel
    hess = rng.case % 2 == 0
    d, ivs, ps, order = random_dag(rng, npmax=3 if hess else 4, ncmax=3)
    cls = rng.choice([Model, HessianModel]) if hess else rng.choice([Model, GradientModel])
    model = cls(d)
    ps = sorted(ps, key=lambda p: p.name)
    env, p0 = point(rng, ivs, ps, rng.choice([(3,), (1,), (2, 2), (3, 1), (1, 2)]))
    kw = {**env, **{p.name: float(v) for p, v in zip(ps, p0)}}
    if rng.random() < 0.3:
        rng.shuffle(ps); model.params = list(ps)
        p0 = np.array([kw[p.name] for p in ps])
    if rng.random() < 0.5: call = lambda f: f(**kw)
    else: call = lambda f: f(*[kw[v.name] for v in model.independent_vars + ps])
    out = call(model)
    jac = call(model.eval_jacobian)
    H = call(model.eval_hessian) if hess else None
    comps = sorted(d, key=lambda v: v.name)
    assert len(jac) == len(comps)
    for i, v in enumerate(comps):
        f = comp(d, order, env, ps, v, out[i].shape)
        g = numgrad(f, p0)
        close(jac[i], g, 2e-6, f'Jacobian of {v} in {d}')
        close(getattr(jac, v.name), g, 2e-6)
        if hess:
            assert H[i].shape == (len(ps),) * 2 + out[i].shape
            close(H[i], numgrad(lambda p: numgrad(f, p, 5e-3), p0, 5e-3), 2e-5, f'Hessian of {v} in {d}')
    return f'{d}'


@check('C09', n=8, limit=90)
def extended_parameters(rng):
    """Models whose parameter list was extended (constraints): zero where a component does not depend on the parameter."""
    from symfit import Model, Ge
    d, ivs, ps, order = random_dag(rng, npmax=3, ncmax=2)
    model = Model(d)
    ps = sorted(ps, key=lambda p: p.name)
    sub = rng.sample(ps, rng.randint(1, len(ps)))
    expr = sum((p ** 2 * (i + 1) for i, p in enumerate(sub)), sp.Integer(0)) + sub[0] * (order[-1] if rng.random() < 0.5 else 1)
    con = Model.as_constraint(Ge(expr, 0.5), model)
    env, p0 = point(rng, ivs, ps)
    need = {v.name for v in con.independent_vars}
    kw = {**{k: v for k, v in env.items() if k in need}, **{p.name: float(v) for p, v in zip(ps, p0)}}
    assert con.params == ps
    name = con.dependent_vars[0]
    i = list(con).index(name)
    ev = lambda p: np.asarray(con(**{**kw, **dict(zip([q.name for q in ps], p))})[i], dtype=float)
    jac, H = con.eval_jacobian(**kw), con.eval_hessian(**kw)
    close(jac[i], numgrad(ev, p0), 2e-6, 'Jacobian')
    close(H[i], numgrad(lambda p: numgrad(ev, p, 5e-3), p0, 5e-3), 2e-5, 'Hessian')
    return f'{expr} on {d}'
