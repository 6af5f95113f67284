"""C10: the finite-difference Jacobian is the sixth-order central difference."""
from contracts.objs import *

G = z3.Function('model_value', I, R, Obj, I, R)     # component value with parameter i moved to v, at a data point
number = z3.Function('is_number', Obj, B)
pv = z3.Function('parameter_value', I, R)
xv = z3.Function('x_value', I, R)


class Num(MO.BaseGradientModel, MO.CallableNumericalModel):
    __pyvc__ = True


def moved(E, star, P):
    """The point a call is made at: all data unchanged, all parameters at their value but one; returns (index, value)."""
    segs = E.norm_segs(star)
    data, pars = segs[:-1], segs[-1]
    E.prove_value('the data are passed unchanged', SSeq(data), seq(P.nx, lambda i: xv(i)))
    E.prove('one value per parameter', type(pars) is Comp and pars.cond is True and E.proves_eq(real(pars.n), P.P.n))
    cands = []
    def f(x):
        if isinstance(x, z3.ExprRef):
            st = [x]
            while st:
                y = st.pop()
                if z3.is_eq(y):
                    a, b = y.children()
                    for u, w in ((a, b), (b, a)):
                        if u.eq(pars.var) and not any(w.eq(c) for c in cands): cands.append(w)
                        # index equations as the simplifier leaves them
                        elif u.sort() == I and not contains(w, pars.var):
                            d = z3.simplify(u - pars.var)
                            if not contains(d, pars.var) and not any(z3.simplify(w - d).eq(c) for c in cands): cands.append(z3.simplify(w - d))
                            d = z3.simplify(u + pars.var)
                            if not contains(d, pars.var) and not any(z3.simplify(d - w).eq(c) for c in cands): cands.append(z3.simplify(d - w))
                st.extend(y.children())
            return x
    walk(pars.body, f)
    j = pars.var
    for i in cands:
        if contains(i, j): continue
        if E.valid(Implies(z3.And(j >= 0, j < P.P.n, j != i), real(pars.body) == pv(j))):
            E.prove('one parameter is moved, the others keep their value', True)
            return i, z3.simplify(subst(pars.body, [(j, i)]))
    E.prove('one parameter is moved, the others keep their value', False)
    raise Unsupported('point of a model call')


def setup(E, kind, poly=None):
    S = ModelSetup(E, Num, consts=False)
    S.P.nx = None
    P = S.P
    class Q: pass
    Q.P, Q.nx = P, S.nx
    E.assume(P.n >= 1)
    cond = {'numbers': lambda v: True, 'arrays': lambda v: False, 'mixed': lambda v: number(v)}[kind]
    def value(i, val, v, k): return G(i, val, v, k) if poly is None else poly(val)
    def call(E, a, k, s):
        from pyvc.engine import Star
        form(not k and s is None, 'the model')
        sg = []
        for x in a[1:]:
            if type(x) is Star: sg += list(x.seq.segs)
            else: sg.append(Unit(x))
        i, val = moved(E, SSeq(sg), Q)
        c = E.idx('c')
        d = E.idx('d')
        arr = STensor([S.grp(V(c))], [d], value(i, val, V(c), d))
        num = value(i, val, V(c), z3.IntVal(0))
        b = cond(V(c))
        return E.new_list([Comp(S.nc, c, True, ite(b, num, arr))])
    E.contracts[MO.BaseCallableModel.__call__] = call
    names = [('loop', S.nx, None, True)]
    def bind(E, a, k, s):
        """inspect.Signature.bind of the model's own signature (C08): every argument under its name."""
        form(len(a) == 1 and not k, 'Signature.bind')
        i, j = E.idx('s'), E.idx('s')
        ops = [('loop', S.nx, i, True, SStr(pname(X(i))), xv(i)), ('loop', P.n, j, True, SStr(pname(P.fn(j))), pv(j))]
        E.prove_value('the arguments bound', s if s is not None else SMap(), SMap(ops))
        return SFun('BoundArguments', None, (), attrs={'arguments': E.new_dict(ops)})
    E.contracts[inspect.Signature.bind] = bind
    E.trusted.add('inspect.Signature.bind')
    i, j = E.idx('s'), E.idx('s')
    ops = [('loop', S.nx, i, True, SStr(pname(X(i))), xv(i)), ('loop', P.n, j, True, SStr(pname(P.fn(j))), pv(j))]
    c = E.idx('c')
    model = E.new_obj(Num, _params=P.list(), independent_vars=E.new_list(seq(S.nx, S.x).segs), __signature__=E.new_obj(inspect.Signature),
                      model_dict=E.new_dict([('loop', S.nc, c, True, S.v(c), z3.Int('expression'))], collections.OrderedDict))
    reserve(E, 'self', 'dx')
    return S, model, SMap(ops), cond, value


def central(g, p, h):
    """The sixth-order central difference of g at p with step h."""
    tot = z3.RealVal(0)
    for o, w in ((1, '3/2'), (2, '-3/5'), (3, '1/10')):
        tot = tot + z3.RealVal(w) * (g(p + o * h) - g(p - o * h)) / (2 * o * h)
    return tot


@task('C10', 'lemma: exact for polynomials of degree at most six')
def lemma(E):
    E.cur = 'sixth-order central difference'
    p, h = z3.Reals('p h')
    E.assume(h != 0)
    def power(v, m):
        r = z3.RealVal(1)
        for _ in range(m): r = r * v
        return r
    for m in range(7):
        E.prove_num(f'derivative of the power {m}', central(lambda v: power(v, m), p, h), m * power(p, m - 1) if m else z3.RealVal(0))
    a = [z3.Real(f'a{q}') for q in range(7)]
    E.prove_num('derivative of a polynomial', central(lambda v: sum(a[q] * power(v, q) for q in range(7)), p, h), sum(q * a[q] * power(p, q - 1) for q in range(1, 7)))


def stencil(kind, entry='finite_difference'):
    def t(E):
        S, model, kw, cond, value = setup(E, kind)
        P = S.P
        dx = z3.Real('dx')
        E.assume(dx > 0)
        def go():
            if entry == 'default': r, d = E.call(E.getattr(model, 'finite_difference'), [], {}, kw), z3.RealVal('1e-8')
            else: r, d = E.call(E.getattr(model, 'finite_difference'), [], {'dx': dx}, kw), dx
            c, i, k = E.idx('c'), E.idx('i'), E.idx('k')
            p = pv(i)
            def want(k):
                h = z3.If(z3.Or(p >= z3.RealVal('1e-7'), p <= -z3.RealVal('1e-7')), d * p, d)
                return central(lambda v: G(i, v, V(c), k), p, h)
            u = E.idx('u')
            one = STensor([Axis(P.n), Axis(z3.IntVal(1))], [i, u], want(z3.IntVal(0)))
            full = STensor([Axis(P.n), S.grp(V(c))], [i, k], want(k))
            E.prove_value('the sixth-order central difference of every component and parameter', r, SSeq([Comp(S.nc, c, True, ite(cond(V(c)), one, full))]))
        run(E, 'finite_difference', go)
    return t


task('C10', 'finite difference: numbers and arrays, given step')(stencil('mixed', 'finite_difference'))
task('C10', 'finite difference: arrays, default step')(stencil('arrays', 'default'))
