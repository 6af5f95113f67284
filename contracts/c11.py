"""C11: a constraint holds for the optimizer exactly when the stated relation holds."""
from contracts.minim import *
from contracts.objs import signatures, X
import sympy, collections

# ---------------------------------------------------------------------- what scipy receives
CO = z3.Function('constraint', I, Obj)
CM = z3.Function('constraint_model', Obj, Obj)
iseq = z3.Function('is_equality', Obj, B)
cg = z3.Function('constraint_gradient', Obj, I, R)
chess = z3.Function('constraint_hessian', Obj, I, I, R)
cval = z3.Function('constraint_value', Obj, R)


RL = z3.Function('relation', I, Obj)
def x_in(P):
    f = z3.Function('x_in', I, R)
    return vec(P.nfree(), lambda i: f(i))


def picked(E, P, k):
    j = z3.Int('$r')
    return E.sel(P.n, j, P.free(j), k)


def handed(cls, mcls, style):
    """Every constraint reaches scipy once, in order, with its own type, its own function and its own derivatives."""
    def t(E):
        S = Setup(E, cls, derivs=issubclass(mcls, MO.BaseGradientModel))
        P = S.P
        E.assume(P.nfree() >= 1)
        n = z3.Int('n_constraints')
        E.assume(n >= 0)
        E.declare_injective(CO); E.declare_injective(CM)
        reserve(E, 'self')
        ctype = lambda E, r: SIte(iseq(r.t), sympy.Eq, sympy.Ge)
        data = {'the data': 1}
        E.schema[mcls] = {'constraint_type': ctype, 'params': lambda E, r: P.list()}
        E.schema[O.MinimizeModel] = {'model': lambda E, r: SRef(CM(r.t), mcls)}
        E.schema[sympy.Rel] = {'$isinstance': lambda E, r, c: issubclass(sympy.GreaterThan, c)}
        made = z3.Function('objective_of', Obj, Obj)
        E.declare_injective(made)
        o, i = z3.Const('$o', Obj), z3.Int('$i')
        E.ax_by_fn.setdefault('objective_of', []).append(z3.ForAll([o], CM(made(o)) == o, patterns=[made(o)]))
        def minimize_model(E, a, k, s):
            d = dict(zip(('model', 'data'), a)); d.update(k)
            E.prove('evaluated on the data of the fit', E.force(d['data']) is data)
            return SRef(made(E.force(d['model']).t), O.MinimizeModel)
        E.contracts[O.MinimizeModel] = minimize_model
        as_model = z3.Function('as_constraint', Obj, Obj)
        def as_constraint(E, a, k, s):
            a, k = positional(('cls', 'constraint', 'model'), a, k)
            form(not k and s is None, 'as_constraint')
            E.prove('built by the class of the model, for the model', a[0] is S.modelcls and isinstance(E.force(a[2]), H) and E.force(a[2]).id == S.modelid)
            return SRef(as_model(E.force(a[1]).t), mcls)
        E.contracts[MO.BaseModel.as_constraint.__func__] = as_constraint
        def derivative(f, shape):
            def h(E, a, k, s):
                a, k = positional(('self', 'ordered_parameters'), a, k)
                E.prove('derivative at the point asked for', len(a) == 2 and not k)
                E.prove_value('the point', a[1], x_in(P))
                return shape(E.force(a[0]).t)
            return h
        E.contracts[O.MinimizeModel.eval_jacobian] = derivative('jac', lambda t: vec(P.n, lambda i: cg(t, i)))
        E.contracts[O.MinimizeModel.eval_hessian] = derivative('hess', lambda t: mat(P.n, P.n, lambda i, j: chess(t, i, j)))
        def go():
            E.setattr(S.obj, 'data', data)
            m0 = E.getattr(S.obj, 'model')
            S.modelcls, S.modelid = E.cls_of(m0), m0.id
            q = E.idx('q')
            given = {'objectives': SRef(CO(q), O.MinimizeModel), 'models': SRef(CO(q), mcls), 'relations': SRef(CO(q), sympy.Rel)}[style]
            S.extra = {'constraints': E.new_list([Comp(n, q, True, given)])}
            m = S.make()
            E.method(m, 'execute')
            E.prove('scipy is called once', len(S.cap.calls) == 1)
            kind, d, star = S.cap.calls.pop()
            got = E.as_seq(E.iter_value(d['constraints']))
            E.prove_value('as many constraints', E.seq_len(got), n)
            w = z3.Int('some_constraint')
            if not E.branch(z3.And(w >= 0, w < n)): return
            con = E.force(E.getitem(d['constraints'], w))
            term = {'objectives': CO(w), 'models': made(CO(w)), 'relations': made(as_model(CO(w)))}[style]
            eq = iseq(CM(term))
            want_jac, want_hess = issubclass(mcls, MO.BaseGradientModel) and issubclass(cls, M.ScipyGradientMinimize), hasattr(mcls, 'eval_hessian') and issubclass(cls, M.ScipyHessianMinimize)
            if cls is M.TrustConstr:
                g = lambda nm: E.getattr(con, nm) if E.hasattr(con, nm) else None
                E.prove_value('lower bound', g('lb'), 0)
                E.prove_value('upper bound', g('ub'), SIte(eq, 0, float('inf')))
            else:
                def g(nm):
                    p, v = E.map_lookup(E.as_map(con), nm)
                    return v if p is True else None
                E.prove_value('kind', g('type'), SIte(eq, 'eq', 'ineq'))
            E.prove_value('the function of this constraint', g('fun'), SRef(term, O.MinimizeModel))
            jac, hess = g('jac'), g('hess')
            E.prove('a Jacobian is given iff the model has one', (jac is not None) == want_jac)
            if want_jac:
                E.prove_value('the Jacobian of this constraint, free parameters', E.call(jac, [x_in(P)]), vec(P.nfree(), lambda k: cg(term, picked(E, P, k))))
            E.prove('a Hessian is given iff the model has one', (hess is not None) == want_hess)
            if want_hess:
                v = z3.Function('multiplier', I, R)
                E.prove_value('the Hessian of this constraint, free parameters', E.call(hess, [x_in(P), vec(z3.IntVal(1), lambda i: v(i))]),
                              mat(P.nfree(), P.nfree(), lambda a, b: v(z3.IntVal(0)) * chess(term, picked(E, P, a), picked(E, P, b))))
        run(E, f'{cls.__name__}: constraints as {style}', go)
    return t


for c, ms in ((M.SLSQP, (MO.Model, MO.CallableModel)), (M.COBYLA, (MO.Model, MO.CallableModel)), (M.TrustConstr, (MO.Model, MO.GradientModel, MO.CallableModel))):
    for mc in ms:
        for style in ('objectives', 'models', 'relations'):
            task('C11', f'{c.__name__}, constraints as {style} ({mc.__name__})')(handed(c, mc, style))


# ---------------------------------------------------------------------- relation -> model
Z = z3.Function('component_of_constraint', I, Obj)
XE = z3.Function('constraint_expression', I, Obj)
ev = z3.Function('value_of', Obj, R)            # at an arbitrary point
minus = z3.Function('minus', Obj, Obj, Obj)
times = z3.Function('times', Obj, R, Obj)
lhs, rhs = z3.Function('lhs', Obj, Obj), z3.Function('rhs', Obj, Obj)
KINDS = {'Eq': sympy.Eq, 'Ge': sympy.Ge, 'Le': sympy.Le, 'Gt': sympy.Gt, 'Lt': sympy.Lt, 'Ne': sympy.Ne}
HOLDS = {'Eq': lambda l, r: l == r, 'Ge': lambda l, r: l >= r, 'Le': lambda l, r: l <= r}
class Expr_(sympy.Expr): pass


def algebra(E):
    """Sums and products of expressions have the value of the sum or product (sympy, assumed)."""
    a, b, c = z3.Const('$a', Obj), z3.Const('$b', Obj), z3.Real('$c')
    E.ax_by_fn.setdefault('minus', []).append(z3.ForAll([a, b], ev(minus(a, b)) == ev(a) - ev(b), patterns=[minus(a, b)]))
    E.ax_by_fn.setdefault('times', []).append(z3.ForAll([a, c], ev(times(a, c)) == ev(a) * c, patterns=[times(a, c)]))
    def binop(E, op, x, y):
        if op is ast.Sub and isinstance(x, SRef) and isinstance(y, SRef): return SRef(minus(x.t, y.t), Expr_)
        if op is ast.Mult and isinstance(x, SRef) and isnum(y): return SRef(times(x.t, real_(y)), Expr_)
        if op is ast.Mult and isinstance(y, SRef) and isnum(x): return SRef(times(y.t, real_(x)), Expr_)
        raise Unsupported('expression arithmetic')
    E.sym_binop = binop
    E.sym_unop = lambda E, nm, v: SRef(times(v.t, z3.RealVal(-1)), Expr_) if nm == 'neg' else (_ for _ in ()).throw(Unsupported(nm))
    E.trusted.update(['sympy expression arithmetic'])


def real_(v):
    from pyvc.vals import real
    v = real(v)
    return z3.ToReal(v) if v.is_int() else v


def converting(mcls, kind, given):
    """as_constraint: the model's one component is == 0 or >= 0 exactly when the relation holds, it has all parameters
    of the model, and anything but ==, >=, <= between scalars in the parameters of the model is refused."""
    def t(E):
        P = Params(E)
        algebra(E)
        E.declare_injective(Z); E.declare_injective(XE)
        Q = z3.Function('parameter_of_constraint', I, Obj)
        E.declare_injective(Q)
        nq, nd, ni = z3.Int('n_own_parameters'), z3.Int('n_dependent'), z3.Int('n_interdependent')
        E.assume(z3.And(nq >= 0, nd >= 1, ni >= 0))
        D = z3.Function('interdependent', I, Obj)
        DX = z3.Function('interdependent_expression', I, Obj)
        E.declare_injective(D); E.declare_injective(X)
        nx = z3.Int('nx')
        E.assume(nx >= 0)
        signatures(E)
        o = z3.Const('$o', Obj); i = z3.Int('$i')
        own = z3.Function('own_component', Obj, B)
        for f, v in ((Z, True), (D, False)):
            E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([i], own(f(i)) == v, patterns=[f(i)]))
        L, Rh = z3.Const('the_lhs', Obj), z3.Const('the_rhs', Obj)
        numerical = issubclass(mcls, MO.BaseNumericalModel)
        reserve(E, 'connectivity_mapping')
        def entries(sign, expr):
            d, c = E.idx('d'), E.idx('c')
            return [('loop', ni, d, True, SRef(D(d), Variable), SRef(DX(d), Expr_)), ('loop', nd, c, True, SRef(Z(c), Variable), expr(c))]
        def model(expr, **kw):
            ops = entries(1, expr)
            return E.new_obj(mcls, model_dict=E.new_dict(ops, collections.OrderedDict), dependent_vars=E.new_list(seq(nd, lambda c: SRef(Z(c), Variable)).segs),
                             interdependent_vars=E.new_list(seq(ni, lambda c: SRef(D(c), Variable)).segs),
                             independent_vars=E.new_list(seq(nx, lambda i: SRef(X(i), Variable)).segs),
                             _params=E.new_list(seq(nq, lambda i: SRef(Q(i), Parameter)).segs), **kw)
        def go():
            e = z3.Const('the_expression', Obj)
            want_model = E.new_obj(mcls, _params=P.list())
            ci = E.idx('k')
            conn = E.new_dict([('loop', ni + nd, ci, True, SRef(z3.Function('connected', I, Obj)(ci), Variable), z3.Function('dependencies', I, I)(ci))], dict)
            at, named = [z3.Real('argument')], z3.Real('argument_by_name')
            def component(E, fn, a, k, s):
                E.prove('the component is called with the arguments given', s is None and len(a) == 1 and list(k) == ['b'] and a[0] is at[0] and k['b'] is named)
                return ev(XE(fn.data[0]))
            def with_dependencies(E, a, k, s):
                d = dict(zip(('cls', 'model_expr', 'dependency_model'), a)); d.update(k)
                E.prove('made by this class', d['cls'] is mcls)
                E.prove('depending on the model', isinstance(E.force(d['dependency_model']), H) and E.force(d['dependency_model']).id == want_model.id)
                x = E.force(d['model_expr'])
                if given == 'relation':
                    # a model of one component: the expression of the relation
                    E.assume(nd == 1)
                    expr = lambda c: x
                    S['rel'] = True
                else:
                    E.prove('the expressions as given', isinstance(x, SRef) and x.t.eq(e))
                    expr = lambda c: SRef(XE(c), Expr_) if given == 'expression' else SFun('component', component, (c,))
                return model(expr, **({'_connectivity_mapping': conn} if numerical else {}))
            S = {}
            E.contracts[MO.BaseModel.with_dependencies.__func__] = with_dependencies
            def construct(E, a, k, s):
                d = dict(zip(('model_dict',), a)); d.update(k)
                got = E.as_map(d['model_dict'])
                lk = lambda t: E.map_lookup(got, SRef(t, Variable))
                c = E.idx('c')
                new = model(lambda c: lk(Z(c))[1], **({'_connectivity_mapping': d['connectivity_mapping']} if numerical else {}))
                E.prove_value('the negative has as many components', E.seq_len(E.items(got)), ni + nd)
                w = z3.Int('interdep')
                if E.branch(z3.And(w >= 0, w < ni)):
                    p, v = lk(D(w))
                    E.prove('an interdependent component is kept', p)
                    E.prove_value('its expression is kept', v, SRef(DX(w), Expr_))
                if numerical: E.prove_value('the connectivity is kept', E.as_map(d['connectivity_mapping']), E.as_map(conn))
                return new
            E.contracts[mcls] = construct
            if given == 'relation':
                E.schema[KINDS[kind]] = {'lhs': lambda E, r: SRef(L, Expr_), 'rhs': lambda E, r: SRef(Rh, Expr_)}
                args, kw = [SRef(z3.Const('the_relation', Obj), KINDS[kind]), want_model], {}
            else:
                args, kw = [SRef(e, Expr_), want_model], ({'constraint_type': KINDS[kind]} if kind else {})
            if numerical: kw['connectivity_mapping'] = conn
            i, j = z3.Int('$i'), z3.Int('$j')
            inside = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nq), z3.Exists([j], z3.And(j >= 0, j < P.n, Q(i) == P.fn(j)))))
            allowed = kind in HOLDS
            try:
                r = E.call(E.getattr(mcls, 'as_constraint'), args, kw)
            except Raised as ex:
                E.prove('refused with ModelError', E.exc_isinstance(ex.val, MO.ModelError))
                E.prove('refused only when of another type, not scalar, or of other parameters', True if not allowed else z3.Not(z3.And(nd == 1, inside)))
                return
            E.prove('other relations are refused', allowed)
            E.prove('constraints that are not scalar are refused', nd == 1)
            E.prove('constraints of other parameters are refused', inside)
            if not allowed: return
            E.prove_value('kind', E.getattr(r, 'constraint_type'), sympy.Eq if kind == 'Eq' else sympy.Ge)
            E.prove_value('all parameters of the model', SSeq(E.iter_value(E.getattr(r, 'params')).segs), seq(P.n, lambda k: P.at(k)))
            E.prove_value('called with all parameters of the model', E.getf(E.getattr(r, '__signature__'), '$names'),
                          SSeq(seq(nx, lambda i: SStr(pname(X(i)))).segs + seq(P.n, lambda k: SStr(pname(P.fn(k)))).segs))
            p, v = E.map_lookup(E.as_map(E.getattr(r, 'model_dict')), SRef(Z(z3.IntVal(0)), Variable))
            E.prove('the component of the constraint', p)
            v = E.force(v)
            if given == 'callable': x = E.call(v, at, {'b': named})
            else:
                E.prove('an expression', isinstance(v, SRef))
                x = ev(v.t)
            l, rr = (ev(L), ev(Rh)) if given == 'relation' else (ev(XE(z3.IntVal(0))), z3.RealVal(0))
            E.prove('satisfied exactly when the relation holds', (x == 0 if kind == 'Eq' else x >= 0) == HOLDS[kind](l, rr))
        run(E, f'{mcls.__name__}.as_constraint', go, raises=(MO.ModelError,))
    return t


for mc in (MO.Model, MO.CallableModel, MO.CallableNumericalModel):
    for k in (*KINDS, None):
        for given in ('relation', 'expression', 'callable'):
            if k is None and given == 'relation' or given == 'callable' and mc is not MO.CallableNumericalModel: continue
            task('C11', f'as_constraint: {k} {given} ({mc.__name__})')(converting(mc, k, given))


# ---------------------------------------------------------------------- Fit._init_constraints
from symfit.core import fit as F


def collected(mcls):
    """Every constraint becomes one model, in order; what already is a constraint model is kept."""
    def t(E):
        E.declare_injective(CO); E.declare_injective(RL)
        n = z3.Int('n_constraints')
        E.assume(n >= 0)
        ready = z3.Function('is_a_model', Obj, B)
        made = z3.Function('as_constraint', Obj, Obj)
        E.schema[mcls] = {'constraint_type': lambda E, r: SIte(iseq(r.t), sympy.Eq, sympy.Ge)}
        as_cls = MO.CallableModel if issubclass(mcls, MO.BaseNumericalModel) else mcls
        def go():
            model = E.new_obj(mcls, _params=Params(E).list())
            def as_constraint(E, a, k, s):
                d = dict(zip(('cls', 'constraint', 'model'), a)); d.update(k)
                E.prove('made by the analytical class that goes with the model', d['cls'] is as_cls)
                E.prove('for the model of the fit', E.force(d['model']).id == model.id and len(d) == 3)
                return SRef(made(E.force(d['constraint']).t), as_cls)
            E.contracts[MO.BaseModel.as_constraint.__func__] = as_constraint
            q = E.idx('q')
            con = E.new_list([Comp(n, q, True, SIte(ready(CO(q)), SRef(CO(q), mcls), SRef(RL(q), sympy.Rel)))])
            fit = E.new_obj(F.Fit, model=model)
            r = E.method(fit, '_init_constraints', con, model)
            got = E.as_seq(E.iter_value(r))
            E.prove_value('as many models as constraints', E.seq_len(got), n)
            w = z3.Int('some_constraint')
            if not E.branch(z3.And(w >= 0, w < n)): return
            v = E.force(E.getitem(r, w))
            E.prove('the constraint given, as a model', isinstance(v, SRef) and v.t == z3.If(ready(CO(w)), CO(w), made(RL(w))))
        run(E, 'Fit._init_constraints', go)
    return t

for mc in (MO.Model, MO.CallableModel, MO.CallableNumericalModel, MO.ODEModel):
    task('C11', f'_init_constraints ({mc.__name__})')(collected(mc))
