"""C04: value, gradient and Hessian of the least-squares objective."""
from contracts.objs import *

vin = z3.Function('v_in', I, R)


def setup(E, flat):
    S = ModelSetup(E, inter=False, flat=flat)
    S.ev = Evaluations(S)
    c = z3.Int('c0')
    E.assume(z3.And(c >= 0, c < S.nc, S.isdep(c), hasdata(V(c))))   # at least one component has data
    E.assume(S.P.n >= 1)
    return S


def withdata(S): return lambda c: And(S.isdep(c), hasdata(V(c)))


def value(S):
    return total(S, lambda v, k, kk: (fval(v, kk) - yval(v, k)) ** 2 / sval(v, k) ** 2, withdata(S)) / 2


def gradient(S, i):
    return total(S, lambda v, k, kk: (fval(v, kk) - yval(v, k)) * jval(v, i, kk) / sval(v, k) ** 2, withdata(S))


def hessian(S, i, j):
    return total(S, lambda v, k, kk: (jval(v, i, kk) * jval(v, j, kk) + (fval(v, kk) - yval(v, k)) * hval(v, i, j, kk)) / sval(v, k) ** 2, withdata(S))


def harness(name, names, flat=False):
    def t(E):
        S = setup(E, flat)
        P = S.P
        def go():
            obj = S.objective(O.LeastSquares)
            x = vec(P.nfree(), lambda i: vin(i))
            if name == 'per component':
                r = E.call(Bound(O.LeastSquares.__call__, obj), [x], {'flatten_components': False})
                c, k = E.idx('c'), E.idx('k')
                kk = ite(const(V(c)), z3.IntVal(0), k)
                one = E.sum_term(S.size(V(c)), k, True, (fval(V(c), kk) - yval(V(c), k)) ** 2 / sval(V(c), k) ** 2) / 2
                E.prove_value('half the weighted sum of squares of every component', E.as_seq(r), SSeq([Comp(S.nc, c, S.isdep(c), ite(hasdata(V(c)), one, z3.RealVal(0)))]))
            else:
                r = E.call(Bound(getattr(O.LeastSquares, name), obj), [x])
                i, j = E.idx('i'), E.idx('j')
                if name == '__call__': E.prove_num('half the weighted sum of squares', r, value(S))
                elif name == 'eval_jacobian': E.prove_value('the derivative of the value', r, STensor([Axis(P.n)], [i], gradient(S, i)))
                else: E.prove_value('the second derivative of the value', r, STensor([Axis(P.n), Axis(P.n)], [i, j], hessian(S, i, j)))
            S.ev.check(x, names)
        run(E, f'LeastSquares {name}', go)
    return t


for flat in (False, True):
    t = ' (one-dimensional data)' if flat else ''
    task('C04', 'value' + t)(harness('__call__', ['__call__'], flat))
    task('C04', 'per component' + t)(harness('per component', ['__call__'], flat))
    task('C04', 'gradient' + t)(harness('eval_jacobian', ['__call__', 'eval_jacobian'], flat))
    task('C04', 'Hessian' + t)(harness('eval_hessian', ['__call__', 'eval_jacobian', 'eval_hessian'], flat))
