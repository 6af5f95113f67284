"""C08: random symbolic models evaluated by an independent expression evaluator."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, data_array, npeval, sgn_expr
from native.c03 import varnames


def random_dag(rng, const=True, npmax=4, terms=2, ncmax=4, small=False):
    """(model dict, independent variables, parameters, evaluation order): dependencies in random direction w.r.t. names."""
    n = rng.randint(1, npmax)
    ps = mkparams(rng, n, p_fixed=0.2, p_bound=0)
    ivs = varnames(rng, ['r', 't', 'u', 'x'], rng.randint(0 if not const else 1, 2))
    comps = varnames(rng, ['A', 'k', 'm', 'q', 'w', 'y', 'z', 'zz'], rng.randint(1, ncmax))
    order = comps[:]; rng.shuffle(order)
    d, done = {}, []
    for v in order:
        deps = [c for c in done if rng.random() < 0.6]
        xs = deps + ([rng.choice(ivs)] if ivs else [])
        e = sgn_expr(rng, xs, ps, terms)
        for c in deps: e = e + rng.choice([c, c * rng.choice(ps), c ** 2 / 10])
        d[v] = e; done.append(v)
    # every parameter and independent variable occurs
    d[order[0]] = d[order[0]] + sum(ps, sp.Integer(0)) + sum(ivs, sp.Integer(0))
    keys = list(d); rng.shuffle(keys)
    return {k: d[k] for k in keys}, ivs, ps, order


def evaluate(d, order, env):
    env = dict(env)
    for v in order: env[v.name] = npeval(sp.sympify(d[v]), env)
    return env


@check('C08', n=40)
def call(rng):
    from symfit import Model, CallableModel
    d, ivs, ps, order = random_dag(rng)
    model = rng.choice([Model, CallableModel])(d)
    env = {x.name: data_array(rng, (5,), 0.2, 1.5) if rng.random() < .8 else rng.uniform(0.2, 1.5) for x in ivs}
    if rng.random() < .5:
        shp = rng.choice([(2, 3), (4, 1), (1, 3), (1,), (1, 1), (2, 1, 2), ()])
        env = {k: data_array(rng, shp) for k in env}
        if len(env) == 2 and rng.random() < .4: env = dict(zip(env, [data_array(rng, (4, 1)), data_array(rng, (1, 3))]))
    env.update({p.name: rng.uniform(-1.2, 1.2) for p in ps})
    want = evaluate(d, order, env)
    names = [x.name for x in sorted(ivs, key=lambda v: v.name)] + [p.name for p in sorted(ps, key=lambda v: v.name)]
    style = rng.choice(['positional', 'named', 'mixed'])
    cut = {'positional': len(names), 'named': 0, 'mixed': rng.randint(0, len(names))}[style]
    rest = names[cut:]; rng.shuffle(rest)
    out = model(*[env[k] for k in names[:cut]], **{k: env[k] for k in rest})
    comps = sorted(d, key=lambda v: v.name)
    assert len(out) == len(comps) and list(out._asdict()) == comps, (list(out._asdict()), comps)
    assert list(model) == comps
    for i, v in enumerate(comps):
        w = np.atleast_1d(want[v.name])
        close(out[i], w, 1e-9, f'{v} = {d[v]}')
        for other in (getattr(out, v.name), out._asdict()[v], list(out)[i] if False else out[i]): assert other is out[i] or np.array_equal(other, out[i])
    for i, o in enumerate(tuple(out)): assert o is out[i] or np.array_equal(o, out[i])
    for sl in (slice(None), slice(None, None, -1), slice(0, None, 2), slice(-1, None), slice(1, 3)):
        got = out[sl]
        assert len(got) == len(comps[sl]) and all(np.array_equal(a, out[i]) for a, i in zip(got, range(len(comps))[sl])), sl
    assert np.array_equal(out[-1], out[len(comps) - 1])
    for bad in (names[:-1] if names else []),:
        try: model(**{k: env[k] for k in bad}); assert not names, 'call with a missing argument accepted'
        except TypeError: pass
    return f'{d} {style}'


@check('C08', n=15)
def numerical_model(rng):
    """Callable components mixed with symbolic ones."""
    from symfit import CallableNumericalModel
    d, ivs, ps, order = random_dag(rng)
    conn, mixed, nnum = {}, {}, 0
    for v in d:
        e = d[v]
        if rng.random() < 0.6:
            syms = sorted(e.free_symbols, key=lambda s: s.name)
            mixed[v] = (lambda e: lambda **kw: npeval(e, kw))(e); conn[v] = set(syms); nnum += 1
        else: mixed[v] = e
    if not nnum: raise Skip()
    model = CallableNumericalModel(mixed, connectivity_mapping=conn)
    env = {x.name: data_array(rng, (4,), 0.2, 1.5) for x in ivs}
    env.update({p.name: rng.uniform(-1.2, 1.2) for p in ps})
    want = evaluate(d, order, env)
    names = [x.name for x in sorted(ivs, key=lambda v: v.name)] + [p.name for p in sorted(ps, key=lambda v: v.name)]
    for out in (model(*[env[k] for k in names]), model(**{k: env[k] for k in names})):
        for i, v in enumerate(sorted(d, key=lambda v: v.name)): close(out[i], np.atleast_1d(want[v.name]), 1e-9, f'{v} = {d[v]}')
    return f'{d} numerical: {sorted(map(str, conn))}'


@check('C08', n=12)
def expression_call(rng):
    """Calling an expression directly evaluates it; superfluous named values are ignored."""
    d, ivs, ps, order = random_dag(rng, ncmax=1)
    e = d[order[0]]
    env = {s.name: rng.uniform(0.2, 1.5) for s in e.free_symbols}
    names = sorted((s.name for s in e.free_symbols if s in ivs)) + sorted((s.name for s in e.free_symbols if s in ps))
    close(float(e(*[env[k] for k in names])), float(npeval(e, env)), 1e-10, 'positional')
    close(float(e(**env, zzz=1)), float(npeval(e, env)), 1e-10, 'named')
    p = ps[0]; close(float(p(**{p.name: 2.5})), 2.5, 0)
    return str(e)
