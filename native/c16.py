"""C16: ODE systems with known solutions."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams


def system(rng):
    """(model_dict, initial, {var: solution(t, params)}, params) with known closed form."""
    from symfit import Parameter, variables, D, cos
    from symfit.core.support import D
    kind = rng.choice(['decay', 'oscillator', 'poly', 'chain', 'three', 'shared'])
    t0 = rng.choice([0.0, 0.5, -1.0, 2.0, 1])
    if kind == 'decay':
        k = Parameter('k', value=rng.uniform(.2, 1.2)); y, t = variables('y, t')
        y0 = Parameter('y0', value=rng.uniform(.5, 2)) if rng.random() < .5 else rng.uniform(.5, 2)
        return {D(y, t): -k * y}, {t: t0, y: y0}, {'y': lambda T, v: (v['y0'] if isinstance(y0, Parameter) else y0) * np.exp(-v['k'] * (T - t0))}, t, t0
    if kind == 'shared':
        # one parameter is the initial value of two components and a coefficient too
        k = Parameter('k', value=rng.uniform(.2, 1.2)); u, w, t = variables('u, w, t')
        return {D(u, t): -k * u, D(w, t): k + 0 * w}, {u: k, w: k, t: t0}, {'u': lambda T, v: v['k'] * np.exp(-v['k'] * (T - t0)), 'w': lambda T, v: v['k'] + v['k'] * (T - t0)}, t, t0
    if kind == 'oscillator':
        w = Parameter('w', value=rng.uniform(.5, 1.5)); q, p, t = variables('q, p, t')
        q0 = rng.uniform(-1, 1); p0 = Parameter('a0', value=rng.uniform(-1, 1))
        md = [(D(q, t), w * p), (D(p, t), -w * q)]; rng.shuffle(md)
        return dict(md), {q: q0, t: t0, p: p0}, {'q': lambda T, v: q0 * np.cos(v['w'] * (T - t0)) + v['a0'] * np.sin(v['w'] * (T - t0)),
                                                'p': lambda T, v: v['a0'] * np.cos(v['w'] * (T - t0)) - q0 * np.sin(v['w'] * (T - t0))}, t, t0
    if kind == 'poly':
        a = Parameter('a', value=rng.uniform(-1, 1)); b = Parameter('b', value=rng.uniform(-1, 1)); x, s = variables('x, s')
        x0 = rng.uniform(-1, 1)
        return {D(x, s): a * s ** 2 + b}, {x: x0, s: t0}, {'x': lambda T, v: x0 + v['a'] * (T ** 3 - t0 ** 3) / 3 + v['b'] * (T - t0)}, s, t0
    if kind == 'chain':
        k = Parameter('k', value=rng.uniform(.3, 1)); z, a, t = variables('z, a, t')
        a0 = Parameter('z0', value=rng.uniform(.5, 2)); z0 = rng.uniform(0, 1)
        return {D(z, t): k * a, D(a, t): -k * a}, {t: t0, z: z0, a: a0}, {'a': lambda T, v: v['z0'] * np.exp(-v['k'] * (T - t0)), 'z': lambda T, v: z0 + v['z0'] * (1 - np.exp(-v['k'] * (T - t0)))}, t, t0
    c = Parameter('c', value=rng.uniform(.3, 1)); m, n, r, t = variables('m, n, r, t')
    i = {m: rng.uniform(0, 1), n: rng.uniform(0, 1), r: rng.uniform(0, 1)}
    md = [(D(r, t), c + 0 * r), (D(m, t), 2 * c * t), (D(n, t), -c + 0 * m)]; rng.shuffle(md)
    ini = {**i, t: t0}
    return dict(md), ini, {'m': lambda T, v: i[m] + v['c'] * (T ** 2 - t0 ** 2), 'n': lambda T, v: i[n] - v['c'] * (T - t0), 'r': lambda T, v: i[r] + v['c'] * (T - t0)}, t, t0


@check('C16', n=80)
def solutions(rng):
    from symfit import ODEModel
    md, ini, sol, t, t0 = system(rng)
    kw = rng.choice([{}, {}, {'rtol': 1e-9, 'atol': 1e-9}, {'method': 'RK45', 'rtol': 1e-8, 'atol': 1e-8}])
    model = ODEModel(md, initial=ini, **kw)
    vals = {p.name: rng.uniform(.4, 1.4) for p in model.params}
    # whatever their own values and flags, parameters take the value passed in the call
    for p in model.params:
        if rng.random() < .3: p.fixed = True
    nb, na = rng.randint(0, 4), rng.randint(0, 4)
    step = lambda: rng.uniform(.05, 2) if rng.random() < .85 else rng.choice([1e-11, 1e-9, 3e-8, 1e-6, 1e-4]) * rng.uniform(1, 2)
    before = sorted(t0 - step() for _ in range(nb)); after = sorted(t0 + step() for _ in range(na))
    mid = [t0] if rng.random() < .4 or not (nb or na) else []
    T = np.array(before + mid + after, dtype=float)
    style = rng.choice(['array', 'scalar', 'positional'])
    if style == 'scalar': T = np.array([rng.choice(list(T))]); arg = rng.choice([float(T[0]), np.float64(T[0])])
    else: arg = T
    if style != 'scalar' and rng.random() < .25:       # whole numbers
        T = np.array(sorted(rng.sample(range(-4, 6), rng.randint(1, 4))))
        T = T[(T > t0 - 3) & (T < t0 + 3)]
        if not len(T): raise Skip()
        arg = T
    names = [t.name] + [p.name for p in model.params]
    out = model(arg, *[vals[k] for k in names[1:]]) if style == 'positional' else model(**{t.name: arg}, **vals)
    assert len(out) == len(sol) and [v.name for v in out._asdict()] == sorted(sol)
    for i, nm in enumerate(sorted(sol)):
        want = np.atleast_1d(np.asarray(sol[nm](T, vals), dtype=float))
        if want.shape != T.shape: want = np.broadcast_to(want, T.shape)
        close(out[i], want, 2e-5, f'{nm} at {T.tolist()} (t0={t0})')
        close(getattr(out, nm), want, 2e-5)
        for j, tt in enumerate(T):
            if tt == t0: close(out[i][j], sol[nm](np.array(t0), vals), 1e-12, 'initial value')
    return f'{md} t0={t0} T={T.tolist()} {style} {sorted(kw)}'


@check('C16', n=40)
def handed_over(rng):
    """The system and, where one is given, its Jacobian as they reach the integrator."""
    import scipy.integrate, symfit.core.models as MO
    from symfit import ODEModel, Parameter, variables
    from symfit.core.support import D
    import sympy as sp
    n = rng.randint(1, 3)
    t, *ys = variables('t, ' + ', '.join(rng.sample(['u', 'v', 'w', 'a', 'z'], n)))
    ps = [Parameter(nm, value=rng.uniform(.3, 1)) for nm in rng.sample(['k', 'b', 'x0', 'y1'], rng.randint(1, 3))]
    rhs = {v: sum((rng.choice(ps) * rng.choice([-1, 1, .5]) * u * rng.choice([1, t, u]) for u in ys), sp.Integer(0)) + rng.choice(ps) for v in ys}
    t0 = rng.choice([0.0, 0.5])
    md = [(D(v, t), rhs[v]) for v in ys]; rng.shuffle(md)
    init = {v: (rng.choice(ps) if rng.random() < .4 else rng.uniform(.1, .5)) for v in ys}
    model = ODEModel(dict(md), initial={t: t0, **init})
    vals = {p.name: rng.uniform(.3, 1) for p in model.params}
    real, calls = MO.solve_ivp, []
    def spy(fun, t_span, y0, *a, **k):
        calls.append((fun, t_span, y0, k)); return real(fun, t_span, y0, *a, **k)
    MO.solve_ivp = spy
    try: model(t=np.array([t0 - .1, t0 + .1]), **vals)
    finally: MO.solve_ivp = real
    order = sorted(ys, key=lambda v: v.name)
    env = lambda tt, y: {**vals, 't': tt, **{v.name: c for v, c in zip(order, y)}}
    from native.util import npeval
    for fun, span, y0, k in calls:
        args = k.get('args') or ()
        close(np.asarray(y0, dtype=float), [vals[init[v].name] if isinstance(init[v], Parameter) else init[v] for v in order], 1e-12, 'initial values')
        assert span[0] == t0, span
        for _ in range(2):
            tt, y = rng.uniform(0, 1), np.array([rng.uniform(.1, 1) for _ in ys])
            close(np.asarray(fun(tt, y, *args), dtype=float), [float(npeval(rhs[v], env(tt, y))) for v in order], 1e-10, 'system')
            if callable(k.get('jac')):
                want = [[float(npeval(sp.diff(rhs[v], u), env(tt, y))) for u in order] for v in order]
                close(np.asarray(k['jac'](tt, y, *args), dtype=float), want, 1e-10, 'Jacobian of the system')
    return f'{md} {init}'


@check('C16', n=10)
def other_methods(rng):
    """A failing integration is reported, not returned."""
    from symfit import ODEModel, Parameter, variables
    from symfit.core.support import D
    from symfit.core.models import ODEError
    k = Parameter('k'); y, t = variables('y, t')
    model = ODEModel({D(y, t): k * y ** 2}, initial={t: 0.0, y: 1.0}, method='RK45')
    T = np.array([0.5, 1.5]) if rng.random() < .5 else np.array([-.5, .2, 3.0])
    try: out = model(t=T, k=1.0)   # blows up at t = 1
    except ODEError: return 'refused'
    raise AssertionError(f'a diverging solution was returned: {out}')


@check('C16', n=60)
def ghosts(rng):
    """The Python specification of numpy used by the proof (contracts/ghosts.py) agrees with numpy."""
    from contracts import ghosts as G
    items = sorted(rng.uniform(-3, 3) for _ in range(rng.randint(0, 6)))
    if rng.random() < .5: items = sorted(items + [.5])
    a, g = np.array(items), G.Times(items)
    import operator
    op = rng.choice([operator.ge, operator.gt, operator.le, operator.lt, operator.eq, operator.ne])
    x = rng.choice([.5, rng.uniform(-3, 3)])
    sl = slice(rng.choice([None, 0, 1, -1, 2]), rng.choice([None, 0, 1, -1, -2]), rng.choice([None, 1, -1]))
    assert list(op(a, x)) == list(op(g, x)) and (x in a) == (x in g) and len(a) == len(g)
    assert list(a[op(a, x)]) == list(g[op(g, x)]) and list(a[sl]) == list(g[sl]), (items, op, sl)
    b = [rng.uniform(-3, 3) for _ in range(rng.randint(1, 3))]
    assert list(np.concatenate((a, np.array(b)))) == list(G.concatenate((g, G.Times(b)))) and list(np.flip(a)) == list(G.flip(g))
    r = rng.randint(1, 3)
    y = np.array([[rng.uniform(-3, 3) for _ in items] for _ in range(r)]).reshape(r, len(items))
    cols = lambda m: [list(c) for c in m.T]
    m = G.Matrix(cols(y))
    assert cols(y[:, sl]) == m[:, sl].columns and cols(y[:, op(a, x)]) == m[:, op(g, x)].columns and cols(np.flip(y, axis=1)) == G.flip(m, axis=1).columns
    z = np.atleast_2d(b).T
    assert cols(z) == G.Row(b).T.columns
    if len(b) == r: assert cols(np.concatenate((y, z), axis=1)) == G.concatenate((m, G.Row(b).T), axis=1).columns
    return f'{op.__name__} {sl} {items}'
