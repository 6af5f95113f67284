"""C20: the interactive guess without a display."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array, npeval


def build(rng, nx):
    import matplotlib
    matplotlib.use('Agg')
    from symfit import Model, variables
    from symfit.contrib.interactive_guess import InteractiveGuess
    n = rng.randint(1, 3)
    ps = mkparams(rng, n, p_fixed=.3, p_bound=.5)
    xs = list(variables('u, x, t')[:nx]); ys = list(variables('y, w')[:rng.randint(1, 2)])
    md = {}
    for j, y in enumerate(ys):
        md[y] = sum((p * (i + j + 1) * xs[i % nx] ** (1 + i % 2) for i, p in enumerate(ps)), sp.Integer(0)) + sum(xs, sp.Integer(0)) + ps[0] ** 2
    model = Model(md)
    data = {x.name: np.linspace(.1, 2, 12) if nx == 1 else data_array(rng, (12,)) for x in xs}
    off = {}
    for x in xs:
        # data in a narrow range far from zero
        off[x] = rng.choice([0, 0, 10, 300])
        data[x.name] = data[x.name] + off[x]
    for y in ys: data[y.name] = data_array(rng, (12,))
    npts = rng.randint(4, 9)
    if rng.random() < .5:
        for p in ps:
            if p.min is None and p.max is None and rng.random() < .5: p.value = -p.value
    before = {p.name: p.value for p in ps}
    g = InteractiveGuess(model, n_points=npts, **data)
    g.start_ = before
    return g, model, ps, xs, ys, md, data, npts


def shown(g, model, xs, ys, md, vals, perc=(5, 95)):
    for x in model.independent_vars:
        for y in model.dependent_vars:
            plot = g._plots[(x, y)]
            if len(xs) == 1:
                X, Y = plot.get_data()
                env = {x.name: np.asarray(X), **vals}
                close(Y, np.broadcast_to(npeval(md[y], env), np.shape(X)), 1e-8, f'{y}({x})')
            else:
                line, caps, bars = plot
                X, Y = line.get_data()
                grid = np.meshgrid(*[g._x_points[v] for v in model.independent_vars], indexing='ij')
                env = {v.name: q for v, q in zip(model.independent_vars, grid)}; env.update(vals)
                k = model.independent_vars.index(x)
                F = np.moveaxis(np.broadcast_to(npeval(md[y], env), grid[0].shape), k, 0).reshape(len(X), -1)
                close(X, g._x_points[x], 1e-12, 'abscissa'); close(Y, F.mean(axis=1), 1e-8, f'mean {y}({x})')


@check('C20', n=16, limit=90)
def sliders(rng):
    import matplotlib.pyplot as plt
    nx = rng.choice([1, 1, 2])
    g, model, ps, xs, ys, md, data, npts = build(rng, nx)
    try:
        assert set(g._sliders) == set(model.params) and len(g._sliders) == len(ps)
        start = g.start_
        for p in model.params:
            s = g._sliders[p]
            v0 = start[p.name]
            lo = min(0, 2 * v0) if p.min is None else p.min; hi = max(0, 2 * v0) if p.max is None else p.max
            assert (s.valmin, s.valmax) == (lo, hi), (p, s.valmin, s.valmax); close(s.valinit, start[p.name], 1e-12); close(s.val, start[p.name], 1e-12)
        assert set(g._plots) == {(x, y) for x in model.independent_vars for y in model.dependent_vars}
        shown(g, model, xs, ys, md, {p.name: g._sliders[p].val for p in ps})
        for _ in range(3):
            p = rng.choice(model.params); s = g._sliders[p]
            s.set_val(rng.uniform(s.valmin, s.valmax))
            for q in model.params: assert q.value == g._sliders[q].val, (q, q.value, g._sliders[q].val)
            shown(g, model, xs, ys, md, {p.name: g._sliders[p].val for p in ps})
            for q in model.params: assert f'{q.name}: {q.value}' in str(g)
        # the plotted range covers the data
        for x in model.independent_vars:
            pts = g._x_points[x]; assert len(pts) == npts and pts[0] <= data[x.name].min() and pts[-1] >= data[x.name].max()
    finally: plt.close('all')
    return f'{nx}d {describe(ps)}'


@check('C20', n=3, limit=90)
def ode(rng):
    """An ODE model is plotted from its initial time on."""
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from symfit import ODEModel, Parameter, variables, D
    from symfit.contrib.interactive_guess import InteractiveGuess
    k = Parameter('k', value=.7, min=.1, max=2); y, t = variables('y, t')
    model = ODEModel({D(y, t): -k * y}, initial={t: 0, y: 1.0})
    td = np.linspace(0, 2, 9)
    g = InteractiveGuess(model, t=td, y=np.exp(-td), n_points=7)
    try:
        g._sliders[k].set_val(rng.uniform(.2, 1.5))
        X, Y = g._plots[(t, y)].get_data()
        assert X[0] == 0 and k.value == g._sliders[k].val
        close(Y, np.exp(-k.value * X), 1e-5)
    finally: plt.close('all')
    return 'ode'
