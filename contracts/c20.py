"""C20: the interactive guess mirrors the sliders and the model."""
from contracts.objs import *
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from symfit.contrib.interactive_guess import interactive_guess as IG

sval_ = z3.Function('slider_value', Obj, R)
SL = z3.Function('slider', I, Obj)
PL = z3.Function('plot', I, I, Obj)
pts = z3.Function('x_points', Obj, I, R)
grid = z3.Function('x_grid', Obj, I, R)
ev = z3.Function('model_value', Obj, I, R)
class Slider_(object): pass
class Plot_(object): pass


def clip(v, lo, hi):
    """A slider cannot stand outside its range."""
    v, lo, hi = real(v), real(lo), real(hi)
    return z3.If(v <= lo, lo, z3.If(v >= hi, hi, v))


def sliders(E):
    """One slider per parameter, in the bounds of the parameter (0 and twice the value where absent), started at the
    value, and each of them wired to the update of the plots."""
    P = Params(E)
    def go():
        updates = []
        def update(E, a, k, s):
            updates.append(E.force(a[0]).id)
        E.contracts[IG.InteractiveGuess._update_plot] = update
        def slider(E, a, k, s):
            d = dict(zip(('ax', 'label', 'valmin', 'valmax', 'valinit'), a)); d.update(k)
            return E.new_obj(Slider_, ax=d['ax'], label=d['label'], valmin=d['valmin'], valmax=d['valmax'], valinit=d.get('valinit', z3.RealVal('1/2')), val=clip(*[E.force(x) for x in (d.get('valinit', z3.RealVal('1/2')), d['valmin'], d['valmax'])]), on_changed=SFun('on_changed', None, ()))
        def make(E, a, k, s):
            h = slider(E, a, k, s)
            E.setattr(h, 'on_changed', SFun('on_changed', lambda E, fn, a, k, s: E.setattr(fn.data[0], 'callback', a[0]), (h,)))
            return h
        E.contracts[plt.Slider] = make
        E.trusted.add('matplotlib.widgets.Slider')
        axes = z3.Function('axes', R, Obj)
        fig = SFun('Figure', None, (), attrs={'add_axes': SFun('add_axes', lambda E, fn, a, k, s: E.new_obj(plt.Axes, rect=a[0] if a else k['rect']))})
        ig = E.new_obj(IG.InteractiveGuess, model=E.new_obj(MO.Model, _params=P.list()), fig=fig)
        E.method(ig, '_set_up_sliders')
        sl = E.as_map(E.getattr(ig, '_sliders'))
        E.prove_value('as many sliders as parameters', E.seq_len(E.items(sl)), P.n)
        w = z3.Int('some_parameter')
        if not E.branch(z3.And(w >= 0, w < P.n)): return
        p, h = E.map_lookup(sl, P.at(w))
        E.prove('this parameter has a slider', p)
        o = P.fn(w)
        E.prove_value('labelled with the parameter', E.getattr(h, 'label'), P.at(w))
        E.prove_value('from its minimum', E.getattr(h, 'valmin'), ite(phasmin(o), pmin(o), z3.If(pvalue(o) < 0, 2 * pvalue(o), 0)))
        E.prove_value('to its maximum', E.getattr(h, 'valmax'), ite(phasmax(o), pmax(o), z3.If(pvalue(o) < 0, z3.RealVal(0), 2 * pvalue(o))))
        E.prove_value('starting at its value', E.getattr(h, 'valinit'), pvalue(o))
        inside = z3.And(z3.Implies(phasmin(o), pmin(o) <= pvalue(o)), z3.Implies(phasmax(o), pvalue(o) <= pmax(o)))
        E.prove('standing at its value, where that is inside the bounds', z3.Implies(inside, real(E.getattr(h, 'val')) == pvalue(o)))
        E.call(E.getattr(h, 'callback'), [z3.Real('new_value')])
        E.prove('moving it updates the plots', updates == [ig.id])
        u = z3.Int('another_parameter')
        if not E.branch(z3.And(u >= 0, u < P.n, u != w)): return
        at = lambda x: E.as_seq(E.getattr(E.getattr(E.map_lookup(sl, P.at(x))[1], 'ax'), 'rect'))
        E.prove('sliders do not overlap', z3.Not(E.truth(E.eq(E.seq_get(at(u), 1), E.seq_get(at(w), 1)))))
    run(E, 'InteractiveGuess._set_up_sliders', go)

task('C20', 'sliders')(sliders)


class Guess:
    def __init__(self, E, strategy):
        self.E = E
        self.P = P = Params(E)
        for f in (X, V, SL): E.declare_injective(f)
        E.declare_joint(PL)
        i = z3.Int('$i')
        for f, r in ((P.fn, 0), (X, 1), (V, 2)): E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([i], role(f(i)) == r, patterns=[f(i)]))
        self.nx, self.nc, self.npts = z3.Int('nx'), z3.Int('nc'), z3.Int('n_points')
        E.assume(z3.And(self.nx >= 1, self.nc >= 1, self.npts >= 1))
        E.schema[Slider_] = {'val': lambda E, r: sval_(r.t)}
        reserve(E, 'self', 'ordered_data', 'variables', 'output', 'output_dict', 'variable_names', *dir(MO.ModelOutput))
        self.x = lambda i: SRef(X(i), Variable)
        self.y = lambda i: SRef(V(i), Variable)
        self.strategy = strategy

    def points(self, o, fn):
        k = self.E.idx('k')
        return STensor([Axis(self.npts)], [k], fn(o, k))

    def make(self):
        E, P = self.E, self.P
        i, j, k = E.idx('i'), E.idx('j'), E.idx('p')
        self.model = E.new_obj(MO.Model, _params=P.list(), independent_vars=E.new_list(seq(self.nx, self.x).segs), dependent_vars=E.new_list(seq(self.nc, self.y).segs))
        pr, fst, snd, tot = E.pairing()
        q, q2 = E.idx('q'), E.idx('q')
        N = tot(self.nx, self.nc)
        proj = lambda q: (self.x(fst(q, self.nc)), self.y(snd(q, self.nc)))
        ig = E.new_obj(IG.InteractiveGuess, model=self.model,
            _projections=E.new_list([Comp(N, q, True, proj(q))]),
            _plots=E.new_dict([('loop', N, q2, True, proj(q2), SRef(PL(fst(q2, self.nc), snd(q2, self.nc)), Plot_))]),
            _x_points=E.new_dict([('loop', self.nx, i, True, self.x(i), self.points(X(i), pts))]),
            _x_grid=E.new_dict([('loop', self.nx, j, True, self.x(j), self.points(X(j), grid))]),
            _sliders=E.new_dict([('loop', P.n, k, True, P.at(k), SRef(SL(k), Slider_))]))
        E.setattr(ig, '_dimension_strategy', E.call(self.strategy, [ig]))
        return ig

    def called(self, values):
        """The model's contract: called with every independent variable and parameter by name."""
        E, P = self.E, self.P
        def call(E, a, k, s):
            i, j = E.idx('i'), E.idx('p')
            want = SMap([('loop', self.nx, i, True, SStr(pname(X(i))), self.points(X(i), grid)), ('loop', P.n, j, True, SStr(pname(P.fn(j))), values(j))])
            form(len(a) == 1, 'the model')
            s = SMap([('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else []))
            E.prove_value('with the grid and the values of the parameters', s, want)
            E.prove('and nothing else', self.E.truth(self.E.eq(self.E.seq_len(self.E.items(s)), self.nx + P.n)))
            c = E.idx('c')
            return E.call(MO.ModelOutput, [E.new_list(seq(self.nc, self.y).segs), E.new_list([Comp(self.nc, c, True, self.points(V(c), ev))])])
        return call


def moved(E):
    """After a movement every parameter has the value of its slider and every plot shows the model with these values."""
    G = Guess(E, IG.Strategy2D)
    P = G.P
    def go():
        ig = G.make()
        E.contracts[MO.Model.__call__] = G.called(lambda p: sval_(SL(p)))
        def set_data(E, a, k, s):
            E.setattr(a[0], 'shown', (a[1], a[2]))
        E.schema[Plot_] = {'set_data': lambda E, r: SFun('set_data', lambda E, fn, a, k, s: E.setattr(fn.data[0], 'shown', (a[0], a[1])), (r,))}
        E.trusted.add('matplotlib.lines.Line2D.set_data')
        E.method(ig, '_update_plot', None)
        w = z3.Int('some_parameter')
        if E.branch(z3.And(w >= 0, w < P.n)):
            E.prove_value('the parameter has the value of its slider', E.getattr(P.at(w), 'value'), sval_(SL(w)))
        a, b = z3.Ints('some_variable some_component')
        if not E.branch(z3.And(a >= 0, a < G.nx, b >= 0, b < G.nc)): return
        x, y = E.getattr(SRef(PL(a, b), Plot_), 'shown')
        E.prove_value('the plot is drawn at its points', x, G.points(X(a), pts))
        E.prove_value('the plot shows its component', y, G.points(V(b), ev))
    run(E, 'InteractiveGuess._update_plot', go)

task('C20', 'moving a slider')(moved)


def drawn(E):
    """The plot made in the first place shows the model at the values of the parameters."""
    G = Guess(E, IG.Strategy2D)
    P = G.P
    def go():
        ig = G.make()
        E.contracts[MO.Model.__call__] = G.called(lambda p: pvalue(P.fn(p)))
        a, b = z3.Ints('some_variable some_component')
        E.assume(z3.And(a >= 0, a < G.nx, b >= 0, b < G.nc))
        line = E.new_obj(Plot_)
        def plot(E, fn, args, kwargs, s):
            E.prove_value('drawn at its points', args[0], G.points(X(a), pts))
            E.prove_value('showing its component', args[1], G.points(V(b), ev))
            return E.new_list([Unit(line)])
        r = E.method(ig, '_plot_model', (G.x(a), G.y(b)), SFun('Axes', None, (), attrs={'plot': SFun('plot', plot, ())}))
        E.prove('and kept to be updated', E.force(r).id == line.id)
    run(E, 'Strategy2D.plot_model', go)

task('C20', 'the first plot')(drawn)


dmin, dmax = z3.Function('smallest', Obj, R), z3.Function('largest', Obj, R)
def created(mcls, many):
    """One plot per pair of variables; the plotted range covers the data (and starts at the initial point of an ODE)."""
    def t(E):
        G = Guess(E, IG.Strategy2D)
        P = G.P
        E.assume(G.nx > 1 if many else G.nx == 1)
        nd = z3.Int('n_data')
        E.assume(nd >= 1)
        def reduce(f):
            def h(E, a, k, s):
                t = E.force(a[0])
                if not isinstance(t, STensor) or len(a) > 1 or k or not z3.is_app(t.body) or not t.body.decl().name() in ('xdata', 'y'): raise Unsupported('np.min')
                return f(t.body.arg(0))
            return h
        E.contracts[np.min], E.contracts[np.max] = reduce(dmin), reduce(dmax)
        o = z3.Const('$o', Obj)
        for f in ('smallest', 'largest'): E.ax_by_fn.setdefault(f, []).append(z3.ForAll([o], dmin(o) <= dmax(o), patterns=[dmin(o) if f == 'smallest' else dmax(o)]))
        def linspace(E, a, k, s):
            d = dict(zip(('start', 'stop', 'num'), a)); d.update(k)
            lo, hi, n = d['start'], d['stop'], d['num']
            i = E.idx('i')
            E.prove('an array of points', set(d) == {'start', 'stop', 'num'})
            return STensor([Axis(n)], [i], z3.If(n > 1, lo + (hi - lo) * z3.ToReal(i) / z3.ToReal(n - 1), lo))
        E.contracts[np.linspace] = linspace
        E.trusted.update(['numpy.linspace', 'numpy.min', 'numpy.max', 'numpy.meshgrid'])
        def go():
            done = []
            E.contracts[IG.InteractiveGuess._set_up_figure] = lambda E, a, k, s: done.append('figure')
            E.contracts[IG.InteractiveGuess._set_up_sliders] = lambda E, a, k, s: done.append('sliders')
            E.contracts[IG.InteractiveGuess._update_plot] = lambda E, a, k, s: done.append('plots')
            i, c, k = E.idx('i'), E.idx('c'), E.idx('k')
            model = E.new_obj(mcls, _params=P.list(), independent_vars=E.new_list(seq(G.nx, G.x).segs), dependent_vars=E.new_list(seq(G.nc, G.y).segs),
                              **({'initial': E.new_dict([])} if mcls is MO.ODEModel else {}))
            data = {}
            def takes(E, a, k, s):
                ig = a[0]
                a, k = positional(('self', 'model'), a, k)
                E.prove('the model and the data are taken as in a fit', len(a) == 2 and E.force(a[1]).id == model.id and set(k) == {'some'} and s is None)
                E.setattr(ig, 'model', model)
                E.setattr(ig, 'data', E.new_dict([('loop', G.nx, i, True, G.x(i), STensor([Axis(nd)], [k_], xdat(X(i), k_))), ('loop', G.nc, c, True, G.y(c), STensor([Axis(nd)], [k2], yval(V(c), k2)))], collections.OrderedDict))
            k_, k2 = E.idx('k'), E.idx('k')
            E.contracts[F_.TakesData.__init__] = takes
            flat = z3.Function('mesh', I, I, R)
            def meshgrid(E, a, k, s):
                from pyvc.engine import Star
                segs = []
                for x in a: segs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
                if not isinstance(s, type(None)): raise Unsupported('meshgrid')
                q = E.idx('q')
                data['mesh'] = SSeq(segs)
                return E.new_list([Comp(G.nx, q, True, SRef(z3.Function('mesh_array', I, Obj)(q), Mesh_))])
            E.contracts[np.meshgrid] = meshgrid
            E.schema[Mesh_] = {'flatten': lambda E, r: SFun('flatten', lambda E, fn, a, k, s: STensor([Axis(z3.Int('n_grid'))], [g0], flat(fn.data[0].t.arg(0), g0)), (r,))}
            g0 = E.idx('g')
            ig = E.call(IG.InteractiveGuess, [model], {'some': z3.Int('data'), 'n_points': G.npts})
            E.prove('figure, sliders and a first update', done == ['figure', 'sliders', 'plots'])
            E.prove('the way of plotting', E.cls_of(E.getattr(ig, '_dimension_strategy')) is (IG.StrategynD if many else IG.Strategy2D))
            a, b = z3.Ints('some_variable some_component')
            if not E.branch(z3.And(a >= 0, a < G.nx, b >= 0, b < G.nc)): return
            pr = E.pairing()[0]
            pj = E.getattr(ig, '_projections')
            E.prove_value('as many plots as pairs', E.seq_len(E.as_seq(E.iter_value(pj))), E.pairing()[3](G.nx, G.nc))
            E.prove_value('this pair has a plot', E.getitem(pj, pr(a, b, G.nc)), (G.x(a), G.y(b)))
            p, x = E.map_lookup(E.as_map(E.getattr(ig, '_x_points')), G.x(a))
            E.prove('this variable has points', p)
            E.prove_value('the grid has as many directions', E.seq_len(data['mesh']), G.nx)
            E.prove_value('the grid is made of these points', E.seq_get(data['mesh'], a), x)
            first, last = E.getitem(x, 0), E.getitem(x, G.npts - 1)
            E.prove('they start at or before the data', first == dmin(X(a)) if mcls is MO.ODEModel else first <= dmin(X(a)))
            E.prove('they end at or after the data', z3.Implies(G.npts > 1, last >= dmax(X(a))))
            p, g = E.map_lookup(E.as_map(E.getattr(ig, '_x_grid')), G.x(a))
            E.prove('this variable has its place in the grid', p)
            E.prove_value('its own direction of the grid', g, STensor([Axis(z3.Int('n_grid'))], [g0], flat(a, g0)))
        run(E, 'InteractiveGuess.__init__', go)
    return t
class Mesh_(object): pass
from symfit.core import fit as F_

for mc in (MO.Model, MO.ODEModel):
    for many in (False, True):
        task('C20', f'creation ({mc.__name__}, {"several variables" if many else "one variable"})')(created(mc, many))


def moved_nd(E):
    """With several independent variables each plot shows, at every point, the mean of the model over the grid there."""
    G = Guess(E, IG.StrategynD)
    P = G.P
    ng = z3.Int('n_grid')
    E.assume(ng >= 1)
    gp = lambda o, fn: (lambda k: STensor([Axis(ng)], [k], fn(o, k)))(E.idx('k'))
    def go():
        ig = G.make()
        i, c = E.idx('i'), E.idx('c')
        E.setattr(ig, '_x_grid', E.new_dict([('loop', G.nx, i, True, G.x(i), gp(X(i), grid))]))
        E.setattr(ig, 'percentile', (5, 95))
        E.contracts[IG.InteractiveGuess._eval_model] = lambda E, a, k, s: E.call(MO.ModelOutput, [E.new_list(seq(G.nc, G.y).segs), E.new_list([Comp(G.nc, c, True, gp(V(c), ev))])])
        a, b = z3.Ints('some_variable some_component')
        E.assume(z3.And(a >= 0, a < G.nx, b >= 0, b < G.nc))
        # every plotted point is a coordinate of some point of the grid
        k, g = z3.Int('some_place'), E.idx('g')
        n_at = E.count(ng, g, grid(X(a), g) == pts(X(a), k))
        k2 = z3.Int('$k')
        for f, pat in ((n_at.decl().name(), n_at), ('x_points', pts(X(a), k))):
            E.ax_by_fn.setdefault(f, []).append(z3.ForAll([k2], z3.substitute(z3.Implies(z3.And(k >= 0, k < G.npts), n_at >= 1), (k, k2)), patterns=[z3.substitute(pat, (k, k2))]))
        line, bars = E.new_obj(Plot_), []
        mark = lambda nm: SFun(nm, lambda E, fn, a, k, s: bars.append(a[0]), ())
        def set_data(E, fn, args, kwargs, s): E.setattr(line, 'shown', (args[0], args[1]))
        pair = (G.x(a), G.y(b))
        E.setattr(ig, '_plots', E.new_dict([('set', pair, (SFun('Line2D', None, (), attrs={'set_data': SFun('set_data', set_data, ())}), (), (None, SFun('bars', None, (), attrs={'set_segments': mark('set_segments')}))))]))
        pc = z3.Function('percentile_of', R, I, R)
        def percentile(E, args, kwargs, s):
            q = E.idx('q')
            return STensor([Axis(z3.IntVal(2))], [q], pc(E.call(np.mean, [args[0]]), q))
        E.contracts[np.percentile] = percentile
        stack = SFun('stacked', None, ())
        for f in (np.column_stack, np.dstack): E.contracts[f] = lambda E, a, k, s: stack
        E.trusted.update(['numpy.percentile', 'numpy.column_stack', 'numpy.dstack', 'matplotlib containers'])
        E.method(ig, '_update_specific_plot', *pair)
        E.prove('the bars are redrawn', len(bars) == 1)
        x, y = E.getattr(line, 'shown')
        E.prove_value('drawn at its points', x, G.points(X(a), pts))
        w = z3.Int('some_point')
        if not E.branch(z3.And(w >= 0, w < G.npts)): return
        g = E.idx('g')
        here = grid(X(a), g) == pts(X(a), w)
        E.prove_value('as many values as points', E.seq_len(E.as_seq(E.iter_value(y))), G.npts)
        E.prove_num('the mean over the grid at this point', E.getitem(y, w) * E.count(ng, g, here), E.sum_term(ng, g, here, ev(V(b), g)))
    run(E, 'StrategynD.update_plot', go)

task('C20', 'several variables: moving a slider')(moved_nd)


def figure(E):
    """One plot for every pair of variables, kept under that pair, of the data and the model for that pair."""
    G = Guess(E, IG.Strategy2D)
    P = G.P
    def go():
        ig = G.make()
        E.setattr(ig, '_plots', None)
        text = lambda E, a, k, s: SStr(E.fresh('text', I))
        for f in (IG.latex,): E.contracts[f] = text
        E.contracts[np.ceil] = lambda E, a, k, s: z3.ToReal(E.fresh('ceil', I))
        E.contracts[IG.Derivative] = lambda E, a, k, s: SRef(z3.Function('derivative_of', Obj, Obj, Obj)(E.force(a[0]).t, E.force(a[1]).t), IG.Derivative)
        E.contracts[MO.Model.__contains__] = lambda E, a, k, s: z3.Function('is_ode', Obj, B)(E.force(a[1]).t)
        E.contracts[MO.Model.__getitem__] = lambda E, a, k, s: z3.Int('an_expression')
        said = lambda nm: SFun(nm, lambda E, fn, a, k, s: None, ())
        def add_subplot(E, fn, a, k, s):
            h = E.new_obj(plt.Axes, nr=a[2])
            for nm in ('set_title', 'set_ylim', 'set_xlim', 'set_xlabel', 'set_ylabel'): E.setattr(h, nm, said(nm))
            E.setattr(h, 'get_label', SFun('get_label', lambda E, fn, a, k, s: text(E, a, k, s), ()))
            return h
        E.setattr(ig, 'fig', None)
        E.contracts[plt.figure] = lambda E, a, k, s: SFun('Figure', None, (), attrs={'add_subplot': SFun('add_subplot', add_subplot, ()), 'subplots_adjust': said('subplots_adjust')})
        def data(E, a, k, s):
            E.setattr(E.force(a[2]), 'data_of', a[1])
        def model(E, a, k, s):
            x, y = E.seq_get(E.as_seq(E.iter_value(a[1])), 0), E.seq_get(E.as_seq(E.iter_value(a[1])), 1)
            return E.new_obj(Plot_, of=(x, y), ax=a[2])
        E.contracts[IG.InteractiveGuess._plot_data] = data
        E.contracts[IG.InteractiveGuess._plot_model] = model
        def rng(n, v):
            i = E.idx('i')
            return E.new_dict([('loop', n, i, True, v(i), z3.Function('limit', Obj, R)(v(i).t))])
        E.method(ig, '_set_up_figure', rng(G.nx, G.x), rng(G.nx, G.x), rng(G.nc, G.y), rng(G.nc, G.y))
        a, b = z3.Ints('some_variable some_component')
        if not E.branch(z3.And(a >= 0, a < G.nx, b >= 0, b < G.nc)): return
        plots = E.as_map(E.getattr(ig, '_plots'))
        E.prove_value('as many plots as pairs', E.seq_len(E.items(plots)), E.pairing()[3](G.nx, G.nc))
        p, h = E.map_lookup(plots, (G.x(a), G.y(b)))
        E.prove('this pair has a plot', p)
        E.prove_value('of the model for this pair', E.getattr(h, 'of'), (G.x(a), G.y(b)))
        E.prove_value('among the data of this pair', E.getattr(E.getattr(h, 'ax'), 'data_of'), (G.x(a), G.y(b)))
        E.prove_value('in its own place', E.getattr(E.getattr(h, 'ax'), 'nr'), E.pairing()[0](a, b, G.nc) + 1)
    run(E, 'InteractiveGuess._set_up_figure', go)

task('C20', 'figure')(figure)
