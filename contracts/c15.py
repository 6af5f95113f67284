"""C15: the objective and minimizer Fit chooses when the user does not, and what the minimizer is given."""
from contracts.objs import *
from contracts.minim import *
from symfit.core import fit as F
from pyvc.engine import Star
import inspect

Cn = z3.Function('constraint_model', I, Obj)
vexact = z3.Function('given', Obj, B)            # data provided for a variable
vdat = z3.Function('data_given', Obj, Obj)
vnone = z3.Function('given_as_none', Obj, B)     # provided, as None: a variable without data
vhas = lambda o: And(vexact(o), Not(vnone(o)))
gname = z3.Function('argument_object', I, Obj)

KINDS = [c for c in vars(M).values() if isinstance(c, type) and issubclass(c, M.BaseMinimizer) and c.__module__ == M.__name__]
LEAF = [c for c in KINDS if not any(d is not c and issubclass(d, c) for d in KINDS)]


def bounds_task(withcon):
    def t(E):
        P = Params(E)
        nc = z3.Int('n_constraints')
        E.assume(nc >= 1 if withcon else nc == 0)
        if withcon: E.declare_injective(Cn)
        def go():
            model = E.new_obj(MO.Model, _params=P.list(), params=P.list())
            con = E.new_list([comp(nc, lambda k: SRef(Cn(k), MO.Model))]) if withcon else E.new_list()
            fit = E.new_obj(F.Fit, model=model, constraints=con, objective=E.new_obj(O.LeastSquares))
            r = E.force(E.method(fit, '_determine_minimizer'))
            if withcon:
                E.prove('SLSQP when there are constraints', r is M.SLSQP)
                return
            E.prove('no constrained minimizer without constraints', r in (M.LBFGSB, M.BFGS))
            i = E.idx('i')
            anyb = E.exists(i, And(i >= 0, i < P.n, P.free(i), Or(phasmin(P.fn(i)), phasmax(P.fn(i)))))
            anyfix = E.exists(i, And(i >= 0, i < P.n, Not(P.free(i))))
            # a fixed parameter may count as bounded: it is a matter of taste which minimizer serves when only those are there
            if r is M.LBFGSB: E.prove('BFGS when nothing is bounded or fixed', Or(anyb, anyfix))
            else: E.prove('L-BFGS-B when any free parameter has a bound', Not(anyb))
        run(E, 'Fit._determine_minimizer', go)
    return t

task('C15', 'minimizer')(bounds_task(False))
task('C15', 'minimizer-constraints')(bounds_task(True))


class ObjSub(O.LogLikelihood): pass


def objective_task(obj, mini, single=False):
    def t(E):
        S = ModelSetup(E, MO.Model, consts=False)
        if single:
            S.nc = z3.IntVal(1)
            E.assume(S.isdep(z3.IntVal(0)))       # a single component is no ingredient of another one
        else:
            u = z3.Int('$u')
            E.assume(z3.And(S.nc >= 2, E.count(S.nc, u, S.isdep(u)) >= 1))
        def go():
            model = S.model()
            E.setattr(model, 'model_dict', E.new_dict([('loop', S.nc, c, True, S.v(c), SStr(pname(V(c)))) for c in [E.idx('c')]], collections.OrderedDict))
            i, c, d, e = [E.idx('i') for _ in range(4)]
            vg = lambda o: SIte(vnone(o), None, SRef(vdat(o), object))
            E.declare_injective(vdat)
            args = [('loop', S.nx, i, vexact(X(i)), SStr(pname(X(i))), vg(X(i))),
                    ('loop', S.nc, c, And(S.isdep(c), vexact(V(c))), SStr(pname(V(c))), vg(V(c))),
                    ('loop', S.nc, d, And(S.isdep(d), vexact(Sg(V(d)))), SStr(pname(Sg(V(d)))), vg(Sg(V(d))))]
            bound = E.new_obj(inspect.BoundArguments, arguments=E.new_dict(args, dict))
            given = E.new_obj(obj.cls) if isinstance(obj, Inst) else obj
            nodata = lambda: And(E.forall(e, Implies(And(e >= 0, e < S.nc, S.isdep(e)), And(Not(vhas(V(e))), Not(vhas(Sg(V(e))))))))
            likely = (O.LogLikelihood, O.MinimizeModel)
            before = SMap(args)
            try: r = E.call(F.Fit._determine_objective, [model, given, mini, bound])
            except Raised as x:
                E.prove(f'only a TypeError {x.val!r}', E.exc_isinstance(x.val, TypeError))
                E.prove('an error only when a value is given for a variable that cannot have one', Not(nodata()))
                return
            got = E.getf(bound, 'arguments')
            one = lambda: And(S.nc == 1, S.nx == 0, S.isdep(z3.IntVal(0)), Not(vhas(V(z3.IntVal(0)))))
            if obj is not None: E.prove('the objective of the user is used', r is given or (isinstance(given, H) and E.same_handle(r, given)) if hasattr(E, 'same_handle') else E.prove_value('the objective of the user is used', r, given) or True)
            elif mini is M.MINPACK: E.prove('residual vectors for MINPACK', r is O.VectorLeastSquares)
            elif r is O.MinimizeModel: E.prove('the model itself only when scalar, without independent variables and data', one())
            else:
                E.prove('least squares otherwise', r is O.LeastSquares)
                E.prove('the model itself when scalar, without independent variables and data', Not(one()))
            kind = r if isinstance(r, type) else obj.cls
            if kind in likely or (isinstance(obj, Inst) and issubclass(kind, likely)):
                E.prove('an error when a value is given for a variable that cannot have one', nodata())
                f, g = E.idx('f'), E.idx('g')
                E.prove_value('dependent variables and sigmas are set to None', E.as_map(got), SMap(
                    [('loop', S.nx, i, vexact(X(i)), SStr(pname(X(i))), vg(X(i))),
                     ('loop', S.nc, f, S.isdep(f), SStr(pname(V(f))), None), ('loop', S.nc, g, S.isdep(g), SStr(pname(Sg(V(g)))), None)]))
            else: E.prove_value('the data are left as given', E.as_map(got), before)
        run(E, 'Fit._determine_objective', go)
    return t


class Inst:
    def __init__(self, cls): self.cls = cls

for nm, o, m in [('default', None, None), ('minpack', None, M.MINPACK), ('other-minimizer', None, M.NelderMead), ('least-squares', O.LeastSquares, None),
                 ('likelihood', O.LogLikelihood, None), ('minimize', O.MinimizeModel, None), ('likelihood-instance', Inst(O.LogLikelihood), None),
                 ('minimize-instance', Inst(O.MinimizeModel), None), ('least-squares-instance', Inst(O.LeastSquares), M.MINPACK)]:
    task('C15', 'objective-' + nm)(objective_task(o, m))
    task('C15', 'objective-single-' + nm)(objective_task(o, m, True))


def wiring(cls):
    """The arguments of the constructor of the minimizer."""
    def t(E):
        P = Params(E)
        nc = z3.Int('n_constraints'); E.assume(nc >= 0)
        E.declare_injective(Cn)
        for model_has in (0, 1, 2):
            for objcls in (O.LeastSquares, O.VectorLeastSquares, O.LogLikelihood, O.MinimizeModel):
                def go():
                    E.contracts.clear()
                    mcls = (MO.CallableModel, MO.GradientModel, MO.Model)[model_has]
                    made, conmade = [], []
                    def record(c):
                        def h(E, a, k, s):
                            form(s is None or not s.ops, 'the minimizer')
                            a, k = positional(('objective', 'parameters'), a, k)
                            # None is what the constructors take for an option not given
                            for n, b in (('jacobian', M.GradientMinimizer), ('hessian', M.HessianMinimizer), ('constraints', M.ConstrainedMinimizer), ('local_minimizer', M.BasinHopping)):
                                if issubclass(c, b) and n in k and E.force(k[n]) is None: del k[n]
                            made.append((c, a, k))
                            return E.new_obj(c, local=len(made))
                        return h
                    for c in KINDS: E.contracts[c] = record(c)
                    def conobj(E, a, k, s):
                        a, k = positional(('model', 'data'), a, k)
                        E.prove_value('constraints are evaluated on the data of the fit', E.force(a[1]), data)
                        return E.new_obj(O.MinimizeModel, model=a[0], data=a[1])
                    E.contracts[O.MinimizeModel] = conobj
                    plist = P.list()
                    model = E.new_obj(mcls, _params=plist, params=plist)
                    data = E.new_dict()
                    con = E.new_list([comp(nc, lambda k: SRef(Cn(k), MO.Model))])
                    objective = E.new_obj(objcls, model=model, data=data)
                    fit = E.new_obj(F.Fit, model=model, constraints=con, objective=objective, data=data)
                    r = E.method(fit, '_init_minimizer', cls)
                    c, a, k = made.pop()
                    E.prove('the class asked for', c is cls)
                    E.prove_value('objective and parameters', tuple(a), (objective, plist))
                    want = {}
                    if issubclass(cls, M.GradientMinimizer) and model_has >= 1 and hasattr(objcls, 'eval_jacobian'): want['jacobian'] = E.getattr(objective, 'eval_jacobian')
                    if issubclass(cls, M.HessianMinimizer) and model_has >= 2 and hasattr(objcls, 'eval_hessian'): want['hessian'] = E.getattr(objective, 'eval_hessian')
                    names = set(want) | ({'constraints'} if issubclass(cls, M.ConstrainedMinimizer) else set()) | ({'local_minimizer'} if issubclass(cls, M.BasinHopping) else set())
                    E.prove(f'exactly the options {sorted(names)}', set(k) == names)
                    for n, v in want.items(): E.prove_value(n, k.get(n), v)
                    if 'constraints' in names:
                        cs = E.as_seq(E.force(k['constraints']))
                        E.prove_value('as many constraints', E.seq_len(cs), nc)
                        q = z3.Int('q'); E.assume(z3.And(q >= 0, q < nc))
                        o = E.seq_get(cs, q)
                        E.prove_value('constraints in order', E.getattr(o, 'model'), SRef(Cn(q), MO.Model))
                    if 'local_minimizer' in names:
                        lc, la, lk = made.pop()
                        E.prove_value('objective and parameters of the local minimizer', tuple(la), (objective, plist))
                        E.prove('derivatives of the local minimizer', ('jacobian' in lk) == (issubclass(lc, M.GradientMinimizer) and model_has >= 1 and hasattr(objcls, 'eval_jacobian')))
                        E.prove('constraints of the local minimizer', ('constraints' in lk) == issubclass(lc, M.ConstrainedMinimizer))
                        if 'jacobian' in lk: E.prove_value('jacobian of the local minimizer', lk['jacobian'], E.getattr(objective, 'eval_jacobian'))
                    E.prove('no other minimizer is made', not made)
                run(E, f'Fit._init_minimizer {cls.__name__} {objcls.__name__} {model_has}', go)
    return t

for c in LEAF: task('C15', 'wiring-' + c.__name__)(wiring(c))


# ---------------------------------------------------------------------- options of the user
On = z3.Function('option', I, Obj)
oval = z3.Function('option_value', I, Obj)
Kn = z3.Function('inner_option', I, Obj)
kval = z3.Function('inner_option_value', I, Obj)

def options(cls):
    def t(E):
        S = Setup(E, cls)
        P = S.P
        E.assume(P.nfree() >= 1)
        no, nk = z3.Int('n_options'), z3.Int('n_inner_options')
        E.assume(z3.And(no >= 0, nk >= 0))
        for f in (On, Kn): E.declare_injective(f)
        names = set()
        import inspect as ins
        for c in cls.__mro__:
            if 'execute' in vars(c): names |= set(ins.signature(c.execute).parameters)
        reserve(E, 'self', 'fun', 'func', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'options', 'minimizer_kwargs', 'tol', 'sparse_jacobian', *names)
        inner = {'TrustConstr': 'options', 'BasinHopping': 'minimizer_kwargs'}.get(cls.__name__)
        def go():
            m = S.make()
            i, j, k = [E.idx('i') for _ in range(3)]
            user = [('loop', nk, j, True, SStr(pname(Kn(j))), SRef(kval(j), object))]
            kw = {}
            if inner: kw[inner] = d = E.new_dict(user)
            E.call(Bound(E.class_attr(cls, 'execute'), m), [], kw, SMap([('loop', no, i, True, SStr(pname(On(i))), SRef(oval(i), object))]))
            E.prove('the optimizer is called once', len(S.cap.calls) == 1)
            kind, kw, star = S.cap.calls.pop()
            got = SMap([('set', a, b) for a, b in kw.items()] + (list(star.ops) if star is not None else []))
            q = z3.Int('q'); E.assume(z3.And(q >= 0, q < no))
            p, v = E.map_lookup(got, SStr(pname(On(q))))
            E.prove('every option reaches the optimizer', p)
            E.prove_value('unchanged', v, SRef(oval(q), object))
            if inner:
                E.prove_value('the dictionary of the user is not modified', E.as_map(d), SMap(user))
                p, v = E.map_lookup(got, inner)
                E.prove(f'{inner} reach the optimizer', p)
                if not E.branch(nk > 0): return
                r = z3.Int('r'); E.assume(z3.And(r >= 0, r < nk))
                p, v = E.map_lookup(E.as_map(E.force(v)), SStr(pname(Kn(r))))
                E.prove(f'every entry of {inner} reaches the optimizer', p)
                E.prove_value(f'entries of {inner} unchanged', v, SRef(kval(r), object))
        run(E, f'{cls.__name__}.execute', go)
    return t

for c in LEAF:
    if c is not M.ChainedMinimizer: task('C15', 'options-' + c.__name__)(options(c))


class Given_: pass

def named(cls, given):
    """Every named option of execute reaches the optimizer as given, and the optimizer gets no option nobody asked for."""
    def t(E):
        import inspect as ins
        S = Setup(E, cls)
        E.assume(S.P.nfree() >= 1)
        takes = {}
        for c in cls.__mro__:
            if 'execute' in vars(c):
                takes.update({n: p for n, p in ins.signature(c.execute).parameters.items() if p.kind == p.KEYWORD_ONLY and n not in takes})
        skip = {'jacobian', 'hessian', 'options'}
        vals = {n: SRef(z3.Const('given_' + n, Obj), Given_) for n in takes if n not in skip} if given else {}
        def go():
            m = S.make()
            E.call(Bound(E.class_attr(cls, 'execute'), m), [], dict(vals))
            E.prove('the optimizer is called once', len(S.cap.calls) == 1)
            kind, kw, star = S.cap.calls.pop()
            got = SMap([('set', a, b) for a, b in kw.items()] + (list(star.ops) if star is not None else []))
            for n, v in vals.items():
                p, w = E.map_lookup(got, n)
                E.prove(f'{n} reaches the optimizer', p)
                E.prove_value(f'{n} unchanged', w, v)
            form(all(o[0] == 'set' and isinstance(o[1], str) for o in got.ops), 'options')
            ours = {'fun', 'func', 'x0', 'args', 'method', 'jac', 'hess', 'bounds', 'constraints', 'minimizer_kwargs', 'options', *takes}
            E.prove('nothing nobody asked for', {o[1] for o in got.ops if o[2] is not None} <= ours)
            for inner, own in (('minimizer_kwargs', {'method', 'jac', 'hess', 'bounds', 'constraints'}), ('options', {'sparse_jacobian'})):
                d = [o[2] for o in got.ops if o[1] == inner]
                if d and d[0] is not None:
                    ops = E.as_map(E.force(d[0])).ops
                    form(all(o[0] == 'set' and isinstance(o[1], str) for o in ops), inner)
                    E.prove(f'nothing nobody asked for in {inner}', {o[1] for o in ops if o[2] is not None} <= own)
        run(E, f'{cls.__name__}.execute', go)
    return t

for c in LEAF:
    if c is not M.ChainedMinimizer:
        task('C15', 'defaults-' + c.__name__)(named(c, False))
        if c is not M.BasinHopping and c is not M.MINPACK: task('C15', 'named-options-' + c.__name__)(named(c, True))


# ---------------------------------------------------------------------- Fit puts them together
Mk = z3.Function('minimizer_class', I, Obj)
class AnyMinimizer: pass


def fit_init(objective, minimizer):
    """objective: class | instance; minimizer: none | given | list."""
    def t(E):
        P = Params(E)
        N = z3.Int('n_minimizers'); E.assume(N >= 1)
        E.declare_injective(Mk)
        reserve(E, 'self', 'model', 'ordered_data', 'objective', 'minimizer', 'constraints', 'absolute_sigma', 'named_data', 'adjusted')
        def go():
            model = E.new_obj(MO.Model, _params=P.list(), params=P.list())
            nd = z3.Int('n_given'); E.assume(nd >= 0)
            i = E.idx('i')
            E.declare_injective(gname)
            given = [('loop', nd, i, True, SStr(pname(gname(i))), SRef(vdat(gname(i)), object))]
            adjusted = E.new_dict(given + [('set', 'adjusted', 1)])
            data = E.new_dict()
            ocls = AnyObjective
            seen = []
            user = {'class': AnyObjective, 'instance': E.new_obj(O.LeastSquares), 'none': None}[objective]
            abs_sigma = z3.Bool('absolute_sigma')
            cons = E.new_list()
            E.contracts[F.Fit._init_constraints] = lambda E, a, k, s: E.new_list()
            def bind(E, a, k, s):
                ops = [('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else [])
                E.prove_value('the data are bound as given, by name', SMap(ops), SMap(given))
                form(len(a) == 1, 'Signature.bind_partial')
                return E.new_obj(inspect.BoundArguments, arguments=E.new_dict(given))
            sigobj = SFun('Signature', None, (), attrs={'bind_partial': SFun('bind_partial', lambda E, f, a, k, s: bind(E, [f] + list(a), k, s))})
            E.contracts[F.Fit._make_signature] = lambda E, a, k, s: sigobj
            def determine(E, a, k, s):
                b = dict(zip(('model', 'objective', 'minimizer', 'bound_arguments'), a)); b.update(k)
                E.prove_value('the objective is chosen from what the user gave', (b['model'], b['objective'], b['minimizer']), (model, user, mini))
                E.setf(b['bound_arguments'], 'arguments', adjusted)
                return AnyObjective if user is None else user
            E.contracts[F.Fit.__dict__['_determine_objective'].__func__] = determine
            def takes(E, a, k, s):
                ops = [('set', x, y) for x, y in k.items() if x != 'absolute_sigma'] + (list(s.ops) if s is not None else [])
                E.prove_value('the adjusted data are taken', SMap(ops), E.as_map(adjusted))
                E.prove_value('the model', a[1], model)
                E.prove_value('absolute_sigma is handed on', k.get('absolute_sigma'), abs_sigma)
                E.setattr(a[0], 'model', model); E.setattr(a[0], 'data', data); E.setattr(a[0], 'absolute_sigma', abs_sigma)
            import symfit.core.support as SU
            for c in F.Fit.__mro__[1:]:
                if '__init__' in vars(c) and c is not object: E.contracts[c.__init__] = takes; break
            def newobj(E, a, k, s):
                a, k = positional(('model', 'data'), a, k)
                E.prove_value('the objective gets the model and the data', tuple(a), (model, data))
                o = E.new_obj(O.LeastSquares, fresh=1); seen.append(o)
                return o
            E.contracts[AnyObjective] = newobj
            E.contracts[F.Fit._determine_minimizer] = lambda E, a, k, s: AnyMinimizer
            log = E.new_list()
            def initm(E, a, k, s):
                E.call(SFun('append', lambda E, f, a, k, s: __import__('pyvc.ext', fromlist=['x']).METHODS[('list', 'append')](E, *a)), [log, (a[1], E.getattr(a[0], 'objective'))])
                if a[1] is M.ChainedMinimizer: return ('chain', k.get('minimizers'))
                return ('made', a[1])
            E.contracts[F.Fit._init_minimizer] = initm
            E.schema[SRef] = {}
            mini = {'none': None, 'given': AnyMinimizer2, 'list': E.new_list([comp(N, lambda k: SRef(Mk(k), AnyMinimizer))])}[minimizer]
            fit = E.call(F.Fit, [model], {'objective': user, 'minimizer': mini, 'absolute_sigma': abs_sigma}, SMap(given))
            ob = E.getattr(fit, 'objective')
            E.prove_value('the objective used', ob, user if objective == 'instance' else seen[-1])
            E.prove_value('the model used', E.getattr(fit, 'model'), model)
            got = E.force(E.getattr(fit, 'minimizer'))
            if minimizer == 'list':
                E.prove('a chain', got[0] == 'chain')
                q = z3.Int('q'); E.assume(z3.And(q >= 0, q < N))
                ms = E.as_seq(E.force(got[1]))
                E.prove_value('of as many minimizers', E.seq_len(ms), N)
                E.prove_value('in order', E.seq_get(ms, q), ('made', SRef(Mk(q), AnyMinimizer)))
            else: E.prove_value('the minimizer', got, ('made', AnyMinimizer if minimizer == 'none' else AnyMinimizer2))
            entries = E.rec(log).f['$c']
            n = E.seq_len(entries)
            z = z3.Int('z'); E.assume(z3.And(z >= 0, z < n))
            E.prove_value('the objective is there before the minimizers are made', E.seq_get(E.as_seq(E.seq_get(entries, z)), 1), ob)
        run(E, 'Fit.__init__', go)
    return t

class AnyObjective: pass
class AnyMinimizer2: pass

for o in ('class', 'instance', 'none'):
    for m in ('none', 'given', 'list'): task('C15', f'fit-{o}-{m}')(fit_init(o, m))


@task('C15', 'execute')
def _(E):
    P = Params(E)
    no = z3.Int('n_options'); E.assume(no >= 0)
    E.declare_injective(On)
    xo = z3.Function('popt', I, R)
    reserve(E, 'self', 'jacobian', 'hessian', 'bounds', 'constraints', 'tol')
    def go():
        i, j = E.idx('i'), E.idx('j')
        opts = [('loop', no, i, True, SStr(pname(On(i))), SRef(oval(i), object))]
        res = E.new_obj(FR.FitResults, _popt=vec(P.n, lambda i: xo(i)), covariance_matrix=None, model=None, minimizer=None)
        def ex(E, a, k, s):
            ops = [('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else [])
            form(len(a) == 1, 'execute')
            E.prove_value('the options of the user reach the minimizer, and nothing else', SMap(ops), SMap(opts))
            return res
        E.contracts[M.ScipyMinimize.execute] = ex
        E.contracts[M.ScipyGradientMinimize.execute] = ex
        def cov(E, a, k, s):
            d = E.as_map(E.force(a[1] if len(a) > 1 else k['best_fit_params']))
            E.prove_value('the covariance is taken at the best fit', d, SMap([('loop', P.n, j, True, P.at(j), xo(j))]))
            return SStr(z3.Int('covariance'))
        E.contracts[F.HasCovarianceMatrix.covariance_matrix] = cov
        plist = P.list()
        model = E.new_obj(MO.Model, _params=plist, params=plist)
        mini = E.new_obj(M.BFGS)
        fit = E.new_obj(F.Fit, model=model, minimizer=mini)
        r = E.call(Bound(F.Fit.execute, fit), [], {}, SMap(opts))
        E.prove_value('the result', r, res)
        E.prove_value('its covariance matrix', E.getattr(r, 'covariance_matrix'), SStr(z3.Int('covariance')))
        E.prove_value('its model', E.getattr(r, 'model'), model)
        E.prove_value('its minimizer', E.getattr(r, 'minimizer'), mini)
    run(E, 'Fit.execute', go)
