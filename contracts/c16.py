"""C16: an ODE model returns the solution at exactly the requested times.

sol(v, t) is the solution for component v at time t of the given system from the given initial values: what solve_ivp
returns at each time of t_eval when it is asked the right question (its precondition below).  The requested times are
nb times before the initial time, na after it, and possibly the initial time itself: every increasing array."""
from contracts.objs import *
from contracts import ghosts as G
from pyvc.engine import Star
from pyvc import ext
import numpy as np
from scipy.integrate import solve_ivp

tb, ta = z3.Function('time_before', I, R), z3.Function('time_after', I, R)
sol = z3.Function('solution', Obj, R, R)
isparam = z3.Function('starts_at_a_parameter', Obj, B)
ipar = z3.Function('starting_parameter', Obj, Obj)
ivalue = z3.Function('starting_value', Obj, R)
pval = z3.Function('value_passed', Obj, R)
inmodel, ininit = z3.Function('in_the_system', Obj, B), z3.Function('in_the_initial_values', Obj, B)
kname, kval = z3.Function('integrator_option', I, I), z3.Function('integrator_value', I, Obj)
t0 = z3.Real('t_initial')
T0 = z3.Const('time', Obj)
OWN = ('fun', 't_span', 'y0', 't_eval', 'args', 'jac')
class Option: pass


def start(v): return z3.If(isparam(v), pval(ipar(v)), ivalue(v))


class System(ModelSetup):
    def __init__(self, E):
        ModelSetup.__init__(self, E, MO.ODEModel, consts=False)
        P = self.P
        E.assume(role(T0) == 1)
        self.nk, self.nb, self.na = z3.Ints('n_options n_before n_after')
        E.assume(z3.And(self.nk >= 0, self.nb >= 0, self.na >= 0))
        E.declare_injective(kname)
        i, j, o = z3.Int('$i'), z3.Int('$j'), z3.Const('$o', Obj)
        add = lambda f, *ax: E.ax_by_fn.setdefault(f.name(), []).extend(ax)
        inside = lambda i, n: z3.And(i >= 0, i < n)
        add(tb, z3.ForAll([i], z3.Implies(inside(i, self.nb), tb(i) < t0), patterns=[tb(i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < self.nb), tb(i) < tb(j)), patterns=[z3.MultiPattern(tb(i), tb(j))]))
        add(ta, z3.ForAll([i], z3.Implies(inside(i, self.na), ta(i) > t0), patterns=[ta(i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < self.na), ta(i) < ta(j)), patterns=[z3.MultiPattern(ta(i), ta(j))]))
        Pi = E.inverse[P.fn.name()]
        add(ipar, z3.ForAll([o], z3.Implies(isparam(o), z3.And(role(ipar(o)) == 0, ininit(ipar(o)), P.fn(Pi(ipar(o))) == ipar(o), inside(Pi(ipar(o)), P.n))), patterns=[ipar(o)]))
        add(P.fn, z3.ForAll([i], z3.Implies(inside(i, P.n), z3.Or(inmodel(P.fn(i)), ininit(P.fn(i)))), patterns=[P.fn(i)]))
        add(sol, z3.ForAll([o], sol(o, t0) == start(o), patterns=[sol(o, t0)]))
        add(kname, z3.ForAll([i], z3.And(*[kname(i) != E.str_lit(n) for n in OWN]), patterns=[kname(i)]))

    def install(self): pass

    def time(self): return SRef(T0, Variable)
    def options(self):
        i = self.E.idx('o')
        return SMap([('loop', self.nk, i, True, SStr(kname(i)), SRef(kval(i), Option))])
    def initial(self, v): return SIte(isparam(v), SRef(ipar(v), Parameter), ivalue(v))
    def starts(self): return seq(self.nc, lambda c: start(V(c)))

    def build(self):
        E = self.E
        c = E.idx('c')
        return E.new_obj(MO.ODEModel, _params=self.P.list(), independent_vars=E.new_list([Unit(self.time())]), dependent_vars=E.new_list(seq(self.nc, self.v).segs),
                         interdependent_vars=E.new_list(()),
                         model_params=E.new_list(seq(self.P.n, self.P.at, lambda i: inmodel(self.P.fn(i))).segs),
                         initial_params=E.new_list(seq(self.P.n, self.P.at, lambda i: ininit(self.P.fn(i))).segs),
                         initial=E.new_dict([('loop', self.nc, c, True, self.v(c), self.initial(V(c))), ('set', self.time(), t0)]),
                         integrator_kwargs=E.new_dict(self.options().ops),
                         _cached_system=SFun('system', None), _cached_diff_system=SFun('diff_system', None),
                         __signature__=E.new_obj(inspect.Signature))

    def times(self, at):
        i, j = self.E.idx('b'), self.E.idx('a')
        return SSeq([Comp(self.nb, i, True, tb(i))] + ([Unit(t0)] if at else []) + [Comp(self.na, j, True, ta(j))])

    def column(self, t): return seq(self.nc, lambda c: sol(V(c), t))

    def numpy(self):
        """numpy on times and solutions: the ghost classes, compared with numpy at run time."""
        E = self.E
        def use(fn, ghost):
            old = ext.lookup(fn)
            def h(E, a, k, s):
                x = E.force(a[0])
                if isinstance(x, (tuple, SSeq)): x = E.force(E.seq_get(E.as_seq(x), 0))
                elif isinstance(x, H) and E.rec(x).kind == 'list': x = E.force(E.seq_get(E.rec(x).f['$c'], 0))
                if isinstance(x, H) and E.rec(x).kind == 'obj' and E.rec(x).cls in (G.Times, G.Matrix): return E.call(ghost, a, k, s)
                if old is None: raise Unsupported(fn.__name__)
                return old(E, a, k, s)
            E.contracts[fn] = h
        use(np.concatenate, G.concatenate); use(np.flip, G.flip); use(np.hstack, G.hstack)
        def array(E, a, k, s):
            if len(a) != 1 or not isinstance(E.force(a[0]), H): raise Unsupported('np.array')
            return E.call(G.Times, [a[0]])
        E.contracts[np.array] = E.contracts[np.asarray] = array
        E.contracts[np.atleast_2d] = lambda E, a, k, s: E.call(G.Row, [a[0]])
        def settled(E, a, k, s):
            """[x for x, m in zip(items, mask) if m], where a whole segment is kept or dropped if that can be proved."""
            r = E.call_function(G.select, a, k)
            out = []
            for g in E.norm_segs(E.getf(r, '$c')):
                if type(g) is Comp and g.cond is not True:
                    rng = z3.And(g.var >= 0, g.var < real(g.n))
                    if E.valid(Implies(rng, Not(g.cond))): continue
                    if E.valid(Implies(rng, g.cond)): g = Comp(g.n, g.var, True, g.body)
                out.append(g)
            return E.new_list(out)
        E.contracts[G.select] = settled
        E.trusted.update(['numpy indexing, comparison and concatenation of one- and two-dimensional arrays (ghosts.py, compared at run time)'])

    def integrator(self, m):
        """Contract of solve_ivp."""
        E = self.E
        self.state = E.new_obj(G.Row, ok=z3.BoolVal(True))
        def h(E, a, k, s):
            d = dict(zip(('fun', 't_span', 'y0'), a)); d.update(k)
            more = dict(d)
            for n in OWN: more.pop(n, None)
            E.prove_value('the options of the integrator', SMap([('set', x, y) for x, y in more.items()] + (list(s.ops) if s is not None else [])), self.options())
            E.prove_value('the system that is integrated', d['fun'], E.getattr(m, 'system'))
            if d.get('jac') is not None: E.prove_value('its Jacobian', d['jac'], E.getattr(m, 'diff_system'))
            E.prove_value('the parameters of the system', E.as_seq(E.iter_value(d['args'])), seq(self.P.n, lambda i: pval(self.P.fn(i)), lambda i: inmodel(self.P.fn(i))))
            E.prove_value('the initial values', E.as_seq(E.iter_value(d['y0'])), self.starts())
            lo, hi = [E.force(E.seq_get(E.as_seq(d['t_span']), i)) for i in (0, 1)]
            E.prove_value('integrated from the initial time', lo, t0)
            ts = E.as_seq(E.iter_value(d['t_eval']))
            n = E.seq_len(ts)
            if E.branch(real(n) > 0):
                p, q = z3.Ints('some_time a_later_time')
                rng = z3.And(p >= 0, p < q, q < real(n))
                at = lambda i: term_at(E, ts, i)
                fwd = hi >= lo
                E.prove('integrated up to the last time', Implies(z3.And(p >= 0, p < real(n)), z3.If(fwd, z3.And(at(p) >= lo, at(p) <= hi), z3.And(at(p) <= lo, at(p) >= hi))))
                E.prove('times in the direction of integration', Implies(rng, z3.If(fwd, at(p) < at(q), at(p) > at(q))))
            ok = z3.Function('integration_succeeds', R, B)(hi)
            E.setattr(self.state, 'ok', And(E.getf(self.state, 'ok'), ok))
            y = E.call(G.Matrix, [E.new_list(E.map_seq(ts, self.column).segs)])
            return SFun('OdeResult', None, (), attrs={'success': ok, 'message': 'message', 'y': y, 't': d['t_eval']})
        E.contracts[solve_ivp] = E.contracts[MO.solve_ivp] = h
        E.trusted.add('scipy.integrate.solve_ivp')


def term_at(E, seq, i):
    """The element at place i of a sequence without conditions."""
    r, off = z3.RealVal(0), 0
    cases = []
    for g in E.norm_segs(seq):
        if type(g) is Unit: v, n = real(g.v), 1
        elif type(g) is Comp and g.cond is True: v, n = real(subst(g.body, [(g.var, i - off)])), real(g.n)
        else: raise Unsupported('element of a filtered sequence')
        cases.append((i < off + n, v)); off = off + n
    for c, v in reversed(cases): r = z3.If(c, v, r)
    return r


def columns(E, r):
    r = E.force(r)
    if not (isinstance(r, H) and E.rec(r).kind == 'obj' and E.rec(r).cls is G.Matrix): raise Unsupported('the result is no solution matrix')
    return E.map_seq(E.as_seq(E.iter_value(E.getf(r, 'columns'))), lambda c: E.as_seq(E.iter_value(c)))


def evaluate(at, how):
    def t(E):
        S = System(E)
        reserve(E, 'self')
        if how == 'array': E.assume(True if at else S.nb + S.na >= 1)
        S.numpy()
        def go():
            m = S.build()
            S.integrator(m)
            times = S.times(at)
            tl = E.call(G.Times, [E.new_list(times.segs)]) if how == 'array' else z3.Real('t_requested')
            if how == 'scalar': times = SSeq([Unit(tl)])
            i = E.idx('i')
            ops = [('set', SStr(pname(T0)), tl), ('loop', S.P.n, i, True, SStr(pname(S.P.fn(i))), pval(S.P.fn(i)))]
            def bind(E, a, k, s):
                form(len(a) == 1 and not k, 'Signature.bind')
                E.prove_value('the arguments bound', s if s is not None else SMap(), SMap(ops))
                return SFun('BoundArguments', None, (), attrs={'arguments': E.new_dict(ops, collections.OrderedDict)})
            E.contracts[inspect.Signature.bind] = bind
            E.trusted.add('inspect.Signature.bind')
            try: r = E.call(E.getattr(m, 'eval_components'), [], {}, SMap(ops))
            except Raised as e:
                if not E.exc_isinstance(e.val, MO.ODEError): raise
                E.prove('refused only if the integration failed', Not(E.getattr(S.state, 'ok')))
                raise
            E.prove('failed integrations are refused', E.getattr(S.state, 'ok'))
            E.prove_value('the solution at every requested time, in order', columns(E, r), E.map_seq(times, lambda t: seq(S.nc, lambda c: sol(V(c), t))))
        run(E, 'ODEModel.eval_components', go, raises=(MO.ODEError,))
    return t


task('C16', 'times with the initial time')(evaluate(True, 'array'))
task('C16', 'times without the initial time')(evaluate(False, 'array'))
task('C16', 'one time')(evaluate(False, 'scalar'))


EX = z3.Function('right_hand_side', Obj, Obj)          # by dependent variable
DER = z3.Function('derivative', I, Obj)                # keys of the model dictionary, in the order of the dependent variables
dif = z3.Function('derivative_of', Obj, Obj, Obj)
class Expr: pass


def lambdified(S, seen):
    """Contract of sympy_to_py: a function of the symbols listed, in that order."""
    E = S.E
    def h(E, a, k, s):
        d = dict(zip(('func', 'args'), a)); d.update(k)
        e = E.force(d['func'])
        i = E.idx('i')
        E.prove_value('compiled as a function of time, dependent variables and parameters of the system', SSeq(E.norm_segs(E.as_seq(E.iter_value(d['args'])))), SSeq(
            [Unit(S.time())] + list(seq(S.nc, S.v).segs) + list(seq(S.P.n, S.P.at, lambda i: inmodel(S.P.fn(i))).segs)))
        return SRef(z3.Function('compiled', Obj, Obj)(e.t), Expr)
    E.contracts[SU.sympy_to_py] = E.contracts[MO.sympy_to_py] = h
    E.trusted.add('sympy.lambdify, sympy.diff')


def compiled(t): return SRef(z3.Function('compiled', Obj, Obj)(t), Expr)


def system(what):
    """The functions given to the integrator: the right-hand sides in the order of the dependent variables, called with time,
    state and parameters in that order; their derivatives by the dependent variables."""
    def t(E):
        import sympy
        S = System(E)
        E.declare_injective(DER)
        lambdified(S, None)
        E.contracts[sympy.diff] = lambda E, a, k, s: SRef(dif(E.force(a[0]).t, E.force(a[1]).t), Expr)
        def go():
            c, d = E.idx('c'), E.idx('d')
            m = E.new_obj(MO.ODEModel, independent_vars=E.new_list([Unit(S.time())]), dependent_vars=E.new_list(seq(S.nc, S.v).segs),
                          model_params=E.new_list(seq(S.P.n, S.P.at, lambda i: inmodel(S.P.fn(i))).segs),
                          model_dict=E.new_dict([('loop', S.nc, c, True, SRef(DER(c), Expr), SRef(EX(V(c)), Expr))], collections.OrderedDict),
                          dependent_derivatives=E.new_dict([('loop', S.nc, d, True, SRef(DER(d), Expr), S.v(d))]))
            calls = []
            y = z3.Function('state', I, R)
            a = z3.Function('argument', I, R)
            tt = z3.Real('t')
            n = z3.Int('n_arguments')
            E.assume(n >= 0)
            val = z3.Function('value_of', Obj, R)
            def call(r):
                def f(E, fn, args, k, s):
                    form(not k and s is None, 'the compiled component')
                    xs = []
                    for x in args: xs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
                    E.prove_value('called with time, state and parameters', SSeq(xs), SSeq([Unit(tt)] + list(seq(S.nc, y).segs) + list(seq(n, a).segs)))
                    return val(r.t)
                return SFun('compiled', f)
            E.schema[Expr] = {'__call__': lambda E, r: call(r)}
            f = E.getattr(m, what)
            r = E.call(f, [tt, vec(S.nc, y), Star(seq(n, a))])
            k = z3.Function('compiled', Obj, Obj)
            rows = E.as_seq(E.iter_value(r))
            if what == 'system': E.prove_value('the right-hand sides in order', rows, seq(S.nc, lambda c: val(k(EX(V(c))))))
            else: E.prove_value('the Jacobian of the system', E.map_seq(rows, lambda x: E.as_seq(E.iter_value(x))), seq(S.nc, lambda c: seq(S.nc, lambda d: val(k(dif(EX(V(c)), V(d)))))))
        run(E, f'ODEModel.{what}', go)
    return t


task('C16', 'system')(system('system'))
task('C16', 'Jacobian of the system')(system('diff_system'))


Yg, Gp, gn = z3.Function('dependent_variable', I, Obj), z3.Function('parameter_of_expression', I, I, Obj), z3.Function('parameters_of_expression', I, I)
DY = z3.Function('derivative_given', I, Obj)
made, sgname = z3.Function('variable_named', I, Obj), z3.Function('sigma_name', I, I)


def initialise(options):
    """__init__: dependent variables and their equations in alphabetical order, the parameters of the system and of the initial
    values and all of them together in alphabetical order, the signature, the options of the integrator."""
    def t(E):
        S = System(E)
        n = z3.Int('n_equations')
        E.assume(n >= 1)
        for f in (Yg, DY, sgname): E.declare_injective(f)
        a, b, o = z3.Int('$a'), z3.Int('$b'), z3.Const('$o', Obj)
        add = lambda f, ax: E.ax_by_fn.setdefault(f.name(), []).append(ax)
        add(Yg, z3.ForAll([a], role(Yg(a)) == 2, patterns=[Yg(a)]))
        add(Gp, z3.ForAll([a, b], role(Gp(a, b)) == 0, patterns=[Gp(a, b)]))
        add(gn, z3.ForAll([a], gn(a) >= 0, patterns=[gn(a)]))
        signatures(E)
        reserve(E, 'self')
        E.str_build = lambda E, parts: SStr(sgname(parts[1].t)) if len(parts) == 2 and parts[0] == 'sigma_' and isinstance(parts[1], SStr) else None
        def variable(E, a, k, s):
            d = dict(zip(('name',), a)); d.update(k)
            return SRef(made(d['name'].t), Variable)
        E.contracts[Variable] = variable
        E.trusted.add('Variable construction (C18)')
        Yi = lambda t: t.arg(0) if t.decl().eq(DY) else E.inverse[DY.name()](t)
        y = lambda i: SRef(Yg(i), Variable)
        E.schema[Expr] = {'free_symbols': lambda E, r: E.new_set([Unit(S.time()), Unit(y(Yi(r.t)))]), 'variables': lambda E, r: (S.time(),)}
        def symbols(E, a, k, s):
            e = E.force(a[0]).t.arg(0)
            j = E.idx('k')
            return (E.new_list([Unit(S.time())]), E.new_list([Comp(gn(e), j, True, SRef(Gp(j, e), Parameter))]))
        EXi = z3.Function('expression_given', I, Obj)
        E.contracts[SU.seperate_symbols] = E.contracts[MO.seperate_symbols] = symbols
        E.trusted.add('symfit.core.support.seperate_symbols')
        def go():
            i, j = E.idx('i'), E.idx('i')
            md = E.new_dict([('loop', n, i, True, SRef(DY(i), Expr), SRef(EXi(i), Expr))])
            initial = E.new_dict([('loop', n, j, True, y(j), S.initial(Yg(j))), ('set', S.time(), t0)])
            E.assume(z3.Not(isparam(T0)))
            m = E.call(MO.ODEModel, [md, initial], dict(options))
            x, p, q = z3.Int('some_equation'), z3.Int('place'), z3.Int('later_place')
            E.assume(z3.And(x >= 0, x < n, p >= 0, p < q))
            k = z3.Int('some_parameter')
            E.assume(z3.And(k >= 0, k < gn(x)))
            def members(attr, elements, only):
                s = SSeq(E.norm_segs(E.as_seq(E.getattr(m, attr))))
                N = real(E.seq_len(s))
                E.prove(f'{attr}: one sequence', len(s.segs) == 1 and type(s.segs[0]) is Comp and s.segs[0].cond is True)
                at = lambda q: subst(s.segs[0].body, [(s.segs[0].var, q)]).t
                E.prove(f'{attr}: in alphabetical order, once each', Implies(q < N, pname(at(p)) < pname(at(q))))
                for c, e in elements: E.prove(f'{attr}: all of them', Implies(c, E.seq_contains(s, e)))
                E.prove(f'{attr}: nothing else', Implies(q < N, only(at(q))))
                E.prove(f'{attr}: nothing else', Implies(p < N, only(at(p))))
                return s, at, N
            f, g = z3.Ints('$f $g')
            fromsys = lambda o: z3.Exists([f, g], z3.And(f >= 0, f < n, g >= 0, g < gn(f), Gp(g, f) == o))
            fromini = lambda o: z3.Exists([f], z3.And(f >= 0, f < n, isparam(Yg(f)), ipar(Yg(f)) == o))
            sysp, inip = (True, SRef(Gp(k, x), Parameter)), (isparam(Yg(x)), SRef(ipar(Yg(x)), Parameter))
            members('model_params', [sysp], fromsys)
            members('initial_params', [inip], fromini)
            members('params', [sysp, inip], lambda o: z3.Or(fromsys(o), fromini(o)))
            s, at, N = members('dependent_vars', [(True, y(x))], lambda o: z3.Exists([f], z3.And(f >= 0, f < n, Yg(f) == o)))
            E.prove_value('as many dependent variables as equations', N, n)
            E.prove_value('the independent variable', E.as_seq(E.getattr(m, 'independent_vars')), SSeq([Unit(S.time())]))
            E.prove_value('no interdependent variables', E.seq_len(E.as_seq(E.getattr(m, 'interdependent_vars'))), 0)
            its = SSeq(E.norm_segs(E.items(E.getf(E.getattr(m, 'model_dict'), '$c'))))
            E.prove_value('as many equations', E.seq_len(its), n)
            key, rhs = [E.force(v) for v in E.seq_get(its, x)]
            E.prove('equations in the order of their dependent variables', Yg(Yi(key.t)) == at(x))
            E.prove('with their right-hand sides', rhs.t == EXi(Yi(key.t)))
            pr, v = E.map_lookup(E.getf(E.getattr(m, 'dependent_derivatives'), '$c'), key)
            E.prove('every derivative belongs to its variable', pr); E.prove_value('every derivative belongs to its variable', v, SRef(at(x), Variable))
            c = E.idx('c')
            E.prove_value('one sigma per dependent variable', E.getf(E.getattr(m, 'sigmas'), '$c'), SMap([('loop', n, c, True, SRef(at(c), Variable), SRef(made(sgname(pname(at(c)))), Variable))]))
            E.prove_value('the signature: time, then parameters', E.getf(E.getattr(m, '__signature__'), '$names'),
                          E.map_seq(SSeq([Unit(S.time())] + list(E.as_seq(E.getattr(m, 'params')).segs)), lambda x: SStr(pname(x.t))))
            want = {'method': 'LSODA', **options}
            if want['method'] == 'LSODA': want = {'atol': 1.49012e-8, 'rtol': 1.49012e-8, **want}
            E.prove_value('options of the integrator', E.getf(E.getattr(m, 'integrator_kwargs'), '$c'), SMap([('set', a, b) for a, b in want.items()]))
            E.prove_value('the initial values', E.getf(E.getattr(m, 'initial'), '$c'), E.getf(initial, '$c'))
        run(E, 'ODEModel.__init__', go)
    return t


for nm, o in (('', {}), ('method', {'method': 'RK45'}), ('atol', {'atol': z3.Real('atol')}), ('rtol and more', {'rtol': z3.Real('rtol'), 'max_step': z3.Real('max_step')})):
    task('C16', f'initialisation {nm}'.strip())(initialise(o))


def calling(style):
    """A call hands its arguments on and gives row c of the solution to dependent variable c."""
    def t(E):
        S = System(E)
        reserve(E, 'self')
        def go():
            m = S.build()
            n = z3.Int('n_times')
            E.assume(n >= 1)
            i, j = E.idx('i'), E.idx('i')
            ops = [('set', SStr(pname(T0)), z3.Real('t')), ('loop', S.P.n, i, True, SStr(pname(S.P.fn(i))), pval(S.P.fn(i)))]
            vals = SSeq([Unit(z3.Real('t'))] + list(seq(S.P.n, lambda i: pval(S.P.fn(i))).segs))
            at = z3.Function('solution_at', Obj, I, R)
            row = lambda v: vec(n, lambda k: at(v, k))
            def evaluate(E, a, k, s):
                xs = []
                for x in a[1:]: xs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
                given = SMap([('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else []))
                E.prove_value('positional arguments are handed on', SSeq(xs), vals if style == 'by position' else SSeq([]))
                E.prove_value('named arguments are handed on', given, SMap(()) if style == 'by position' else SMap(ops))
                c = E.idx('c')
                k = E.idx('k')
                return STensor([Axis(S.nc), Axis(n)], [c, k], at(V(c), k))
            E.contracts[MO.ODEModel.eval_components] = evaluate
            out = E.call(m, [Star(vals)]) if style == 'by position' else E.call(m, [], {}, SMap(ops))
            want = seq(S.nc, lambda c: row(V(c)))
            E.prove_value('the rows in order', SSeq(E.iter_value(out).segs), want)
            c = E.idx('c')
            E.prove_value('by variable', E.call(E.getattr(out, '_asdict'), []), SMap([('loop', S.nc, c, True, S.v(c), row(V(c)))]))
            q = z3.Int('some_component')
            E.assume(z3.And(q >= 0, q < S.nc))
            E.prove_value('by index', E.call(MO.ModelOutput.__getitem__, [out, q]), row(V(q)))
            E.prove_value('by name', E.call(MO.ModelOutput.__getattr__, [out, SStr(pname(V(q)))]), row(V(q)))
        run(E, 'ODEModel.__call__', go)
    return t


for style in ('by position', 'by name'): task('C16', f'call {style}')(calling(style))
