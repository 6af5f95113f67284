"""C09: Jacobians and Hessians of symbolic models hold the right derivative in every entry."""
from contracts.objs import *

D1 = z3.Function('first_derivative', Obj, Obj, Obj)              # the symbol D(v, p)
D2 = z3.Function('second_derivative', Obj, Obj, Obj, Obj)        # the symbol D(v, p, q)
has1 = z3.Function('is_listed', Obj, Obj, B)                     # the derivative model has that component
has2 = z3.Function('is_listed_2', Obj, Obj, Obj, B)
flat1 = z3.Function('is_constant_1', Obj, Obj, B)                # its value does not have the shape of the component
flat2 = z3.Function('is_constant_2', Obj, Obj, Obj, B)
dv1 = z3.Function('df', Obj, Obj, I, R)
dv2 = z3.Function('ddf', Obj, Obj, Obj, I, R)


def derivative_symbols(E):
    def D(E, a, k, s):
        if k or s is not None or not all(isinstance(x, SRef) for x in a): raise Unsupported('D')
        ts = [x.t for x in a]
        if len(ts) == 2: return SRef(D1(*ts), sympy.Derivative)
        if len(ts) == 3: return SRef(D2(*ts), sympy.Derivative)
        raise Unsupported('D')
    E.contracts[SU.D] = D
    E.trusted.add('sympy.Derivative as a symbol')

import sympy
class Setup(ModelSetup):
    def install(self): pass         # nothing of the model is assumed here

CLS = {'GradientModel': MO.GradientModel, 'Model': MO.Model}


def evaluating(name, order):
    """Entry (c, p[, q], k) is the value the derivative model gives for D(V(c), P(p)[, P(q)]) at the point asked for,
    zero where it has no such component; the shape is that of the component."""
    def t(E):
        cls = CLS[name]
        S = Setup(E, cls, consts=True)
        P = S.P
        E.assume(P.n >= 1)
        reserve(E, 'self', 'dmodel')
        derivative_symbols(E)
        y = lambda v, k: ite(const(v), z3.IntVal(0), k)
        def value(v, ps):
            """What the derivative model returns: the component's own shape, or a constant."""
            k, u = E.idx('d'), E.idx('o')
            f, flat = (dv1, flat1) if len(ps) == 1 else (dv2, flat2)
            one = STensor([Axis(z3.IntVal(1))], [u], f(v, *ps, z3.IntVal(0)))
            full = STensor([S.grp(v)], [k], f(v, *ps, k))
            return SIte(z3.Or(flat(v, *ps), const(v)), one, full)
        def lookup(E, key):
            key = E.force(key)
            if not isinstance(key, SRef): return False, MISSING
            d = key.t.decl()
            if d.eq(V): return True, S.component(key.t)
            if d.eq(D1) and order == 1 and key.t.arg(0).decl().eq(V): return has1(*key.t.children()), value(key.t.arg(0), key.t.children()[1:])
            if d.eq(D2) and order == 2 and key.t.arg(0).decl().eq(V): return has2(*key.t.children()), value(key.t.arg(0), key.t.children()[1:])
            return False, MISSING
        def go():
            from pyvc.vals import BaseMap
            m = S.model()
            c = E.idx('c')
            E.setattr(m, 'model_dict', E.new_dict([('loop', S.nc, c, True, S.v(c), z3.Int('expression'))], collections.OrderedDict))
            i = E.idx('i')
            point = SMap([('loop', S.nx, i, True, SStr(pname(X(i))), z3.Function('xvalue', I, R)(i))])
            args = [z3.Real('positional')]
            def dmodel(E, fn, a, k, s):
                form(not k and len(a) == 1, 'the derivative model')
                E.prove_value('positional', a[0], args[0])
                E.prove_value('by name', s if s is not None else SMap(), point)
                return SFun('ModelOutput', None, (), attrs={'_asdict': SFun('_asdict', lambda E, f, a, k, s: E.new_dict([('base', BaseMap('derivatives', lookup))], collections.OrderedDict))})
            E.setattr(m, '_cached_jacobian_model' if order == 1 else '_cached_hessian_model', SFun('derivative model', dmodel, ()))
            r = E.call(E.getattr(m, 'eval_jacobian' if order == 1 else 'eval_hessian'), args, {}, point)
            def want(c, one):
                ps = [E.idx('p') for _ in range(order)]
                k = E.idx('d')
                f, flat, has = (dv1, flat1, has1) if order == 1 else (dv2, flat2, has2)
                a = [P.fn(p) for p in ps]
                kk = z3.IntVal(0) if one else z3.If(flat(V(c), *a), z3.IntVal(0), k)
                return STensor([Axis(P.n)] * order + [Axis(z3.IntVal(1)) if one else S.grp(V(c))], ps + [k], ite(has(V(c), *a), f(V(c), *a, kk), z3.RealVal(0)))
            c = E.idx('c')
            E.prove_value('every entry', SSeq(E.iter_value(r).segs), seq(S.nc, lambda c: SIte(const(V(c)), want(c, True), want(c, False))))
            E.prove_value('by component', E.call(E.getattr(r, '_asdict'), []), SMap([('loop', S.nc, c, True, S.v(c), SIte(const(V(c)), want(c, True), want(c, False)))]))
        run(E, f'{name}.eval_{"jacobian" if order == 1 else "hessian"}', go)
    return t


task('C09', 'values: Jacobian of a GradientModel')(evaluating('GradientModel', 1))
task('C09', 'values: Jacobian of a Model')(evaluating('Model', 1))
task('C09', 'values: Hessian of a Model')(evaluating('Model', 2))


# ---------------------------------------------------------------------- the derivative models
W = z3.Function('W', I, Obj)                    # the components of the model, variables or derivatives
DD = z3.Function('derivative', Obj, Obj, Obj)   # derivative(o, p): o differentiated once more
Fn = z3.Function('as_function', Obj, Obj)
EX = z3.Function('expression', I, Obj)
xr = z3.Function('with_functions', Obj, Obj)    # every component replaced by its function
dif = z3.Function('diff', Obj, Obj, Obj)
back = z3.Function('with_variables', Obj, Obj)  # every function replaced by its component
exprof = z3.Function('expr_of', Obj, Obj)
nvars = z3.Function('n_vars', Obj, I)
varof = z3.Function('variable_of', I, Obj, Obj)
isd = z3.Function('is_a_derivative', Obj, B)
Collapsed = z3.Function('derivative_of_a_derivative', Obj, I, Obj)


class Algebra:
    """A symbolic model with components W(c) and what sympy does on its expressions (assumed contract)."""
    def __init__(self, E):
        self.E = E
        self.P = P = Params(E)
        self.nc = z3.Int('nc')
        E.assume(self.nc >= 1)
        for f in (W, Fn, EX, varof): E.declare_injective(f)
        E.declare_joint(DD)
        o, q, i = z3.Const('$o', Obj), z3.Const('$q', Obj), z3.Int('$i')
        A = lambda f, x: E.ax_by_fn.setdefault(f.name(), []).append(x)
        kind = z3.Function('kind', Obj, I)
        A(W, z3.ForAll([i], kind(W(i)) == 1, patterns=[W(i)]))
        A(P.fn, z3.ForAll([i], z3.And(kind(P.fn(i)) == 2, z3.Not(isd(P.fn(i)))), patterns=[P.fn(i)]))
        A(Fn, z3.ForAll([o], z3.And(kind(Fn(o)) == 3, z3.Not(isd(Fn(o)))), patterns=[Fn(o)]))
        A(DD, z3.ForAll([o, q], isd(DD(o, q)), patterns=[DD(o, q)]))
        # a derivative is never a component of the model it is derived from (its order is higher)
        A(DD, z3.ForAll([o, q], z3.Implies(kind(o) == 1, kind(DD(o, q)) == 4), patterns=[DD(o, q)]))
        A(nvars, z3.ForAll([o], nvars(o) >= 1, patterns=[nvars(o)]))
        class Symbol_(sympy.Symbol): pass
        class Expr_(sympy.Expr): pass
        self.symbol, self.expr = Symbol_, Expr_
        def kinds(E, r, cls):
            if cls is sympy.Derivative: return isd(r.t)
        d = {'$isinstance': kinds, 'expr': self.expr_of, 'variables': self.variables_of}
        E.schema[Symbol_] = d
        E.schema[sympy.Derivative] = {'expr': self.expr_of, 'variables': self.variables_of}
        for f in (SU.D, sympy.Derivative): E.contracts[f] = self.derivative
        for c in (self.symbol, self.expr, Parameter): E.contracts[getattr(c, 'xreplace')] = self.xreplace
        E.contracts[self.expr.subs] = self.subs
        E.contracts[self.expr.diff] = self.diff
        E.contracts[MO._components_as_functions] = self.functions
        E.trusted.update(['sympy.xreplace', 'sympy.subs', 'sympy.diff', 'sympy.Derivative', 'symfit.core.models._components_as_functions'])

    def w(self, c): return SRef(W(c), self.symbol)

    def expr_of(self, E, r):
        if r.t.decl().eq(DD) and not E.valid(isd(r.t.arg(0))): return SRef(r.t.arg(0), self.symbol)
        return SRef(exprof(r.t), self.symbol)

    def variables_of(self, E, r):
        if r.t.decl().eq(DD) and not E.valid(isd(r.t.arg(0))): return (SRef(r.t.arg(1), Parameter),)
        j = E.idx('v')
        return SSeq([Comp(nvars(r.t), j, True, SRef(varof(j, r.t), Parameter))])

    def derivative(self, E, a, k, s):
        from pyvc.engine import Star
        if k or s is not None: raise Unsupported('Derivative')
        segs = []
        for x in a[1:]: segs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
        segs = E.norm_segs(SSeq(segs))
        o = E.force(a[0]).t
        if o.decl().eq(exprof):
            # the derivative o.arg(0) taken apart and put together again, with more variables
            E.prove_value('a derivative is rebuilt with all its variables', SSeq(segs[:1]), E.as_seq(self.variables_of(E, SRef(o.arg(0), self.symbol))))
            o, segs = o.arg(0), segs[1:]
        elif E.branch(isd(o)):
            return SRef(Collapsed(o, z3.IntVal(E.newid())), sympy.Derivative)
        if any(type(x) is not Unit for x in segs): raise Unsupported('Derivative')
        for x in segs: o = DD(o, E.force(x.v).t)
        return SRef(o, sympy.Derivative)

    def to_functions(self):
        c = self.E.idx('c')
        return SMap([('loop', self.nc, c, True, self.w(c), SRef(Fn(W(c)), self.symbol))])

    def to_variables(self):
        c = self.E.idx('c')
        return SMap([('loop', self.nc, c, True, SRef(Fn(W(c)), self.symbol), self.w(c))])

    def content(self, m):
        m = self.E.force(m)
        return self.E.getf(m, '$c') if isinstance(m, H) else m

    def functions(self, E, a, k, s):
        return E.new_dict(self.to_functions().ops, collections.OrderedDict)

    def xreplace(self, E, a, k, s):
        r, m = E.force(a[0]), self.content(a[1])
        t = r.t
        if t.decl().eq(EX):
            E.prove_value('components are replaced by their functions', m, self.to_functions())
            return SRef(xr(t), self.expr)
        if t.decl().eq(Fn) or t.decl().eq(self.P.fn):
            E.prove_value('functions are replaced by their components', m, self.to_variables())
            return self.w(t.arg(0).arg(0)) if t.decl().eq(Fn) else r
        raise Unsupported('xreplace')

    def subs(self, E, a, k, s):
        if set(k) - {'evaluate'} or k.get('evaluate', True) is not False: E.prove('substituted without evaluation', False)
        E.prove_value('functions are replaced by their components in the end', self.content(a[1]), self.to_variables())
        return SRef(back(E.force(a[0]).t), self.expr)

    def diff(self, E, a, k, s):
        if len(a) != 2 or k: raise Unsupported('diff')
        return SRef(dif(E.force(a[0]).t, E.force(a[1]).t), self.expr)

    def model(self, cls=MO.CallableModel):
        E, c, d = self.E, self.E.idx('c'), self.E.idx('c')
        return E.new_obj(cls, _params=self.P.list(), model_dict=E.new_dict([('loop', self.nc, c, True, self.w(c), SRef(EX(c), self.expr))], collections.OrderedDict))

    def wanted(self, functions):
        """{derivative of W(c) for P(p): derivative of its expression} and the components themselves."""
        E = self.E
        b = (lambda t: t) if functions else back
        c, p, d = E.idx('c'), E.idx('p'), E.idx('c')
        inner = ('loop', self.P.n, p, True, SRef(DD(W(c), self.P.fn(p)), sympy.Derivative), SRef(b(dif(xr(EX(c)), self.P.fn(p))), self.expr))
        return SMap([E.pair_loop(self.nc, c, True, inner), ('loop', self.nc, d, True, self.w(d), SRef(b(EX(d)), self.expr))])


def symbolic(functions):
    def t(E):
        A = Algebra(E)
        reserve(E, 'self')
        def go():
            m = A.model()
            made = []
            def init(E, a, k, s):
                a, k = positional(('model',), a, k)
                form(len(a) == 1 and not k, 'CallableModel')
                made.append(A.content(a[0]))
                return E.new_obj(MO.CallableModel)
            E.contracts[MO.CallableModel] = init
            r = E.call(MO.jacobian_from_model, [m], {'as_functions': True} if functions else {})
            E.prove('the derivative model is returned', len(made) == 1 and isinstance(r, H))
            E.prove_value('its components', made[0], A.wanted(functions))
        run(E, 'jacobian_from_model', go)
    return t


task('C09', 'derivative model')(symbolic(False))
task('C09', 'derivative model, as functions')(symbolic(True))


def composed(E):
    """The Hessian model is the derivative model of the derivative model with functions in place of components."""
    m = object()
    calls = []
    def j(E, a, k, s):
        d = dict(zip(('model', 'as_functions'), a)); d.update(k)
        calls.append((d['model'], d.get('as_functions', False)))
        return ('derivatives of', d['model'])
    E.contracts[MO.jacobian_from_model] = j
    def go():
        calls.clear()
        r = E.call(MO.hessian_from_model, ['m'])
        E.prove('differentiated twice', r == ('derivatives of', ('derivatives of', 'm')))
        E.prove('functions are kept in between', [E.truth(f) for _, f in calls] == [True, False])
    run(E, 'hessian_from_model', go)
task('C09', 'second derivatives')(composed)


def attached(which):
    def t(E):
        cls = MO.Model
        P, Q = Params(E), Params(E, 'Q')
        S = ModelSetup(E, cls)
        signatures(E)
        def go():
            asked = []
            i, j = E.idx('i'), E.idx('i')
            d = E.new_obj(MO.CallableModel, _params=Q.list(), independent_vars=E.new_list(seq(S.nx, S.x).segs))
            def make(E, a, k, s):
                asked.append(a[0])
                return d
            E.contracts[MO.jacobian_from_model if which == 'jacobian' else MO.hessian_from_model] = make
            m = E.new_obj(cls, _params=P.list(), independent_vars=E.new_list(seq(S.nx, S.x).segs))
            r = E.getattr(m, which + '_model')
            E.prove('built from this model', len(asked) == 1 and isinstance(asked[0], H) and asked[0].id == m.id)
            E.prove('the derivative model', isinstance(r, H) and r.id == d.id)
            E.prove_value('it takes the parameters of the model', E.getattr(r, 'params'), P.seq())
            E.prove_value('in its signature', E.getf(E.getattr(r, '__signature__'), '$names'),
                          SSeq(seq(S.nx, lambda i: SStr(pname(X(i)))).segs + seq(P.n, lambda i: SStr(pname(P.fn(i)))).segs))
            E.prove_value('the parameters of the model itself are unchanged', E.getattr(m, 'params'), P.seq())
        run(E, f'{which}_model', go)
    return t


task('C09', 'attached Jacobian model')(attached('jacobian'))
task('C09', 'attached Hessian model')(attached('hessian'))
