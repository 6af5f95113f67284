"""C06: residual vectors, model minimization, Gauss-Newton mixin."""
from contracts.objs import *
from pyvc.ext import ufn

vin = z3.Function('v_in', I, R)


def sumsq(S, k):
    """Sum over the components with data of the squared weighted residual at data point k."""
    E = S.E
    c = E.idx('c')
    v = V(c)
    kk = ite(const(v), z3.IntVal(0), k)
    return E.sum_term(S.nc, c, hasdata(v), (yval(v, k) - fval(v, kk)) ** 2 / sval(v, k) ** 2)


def residuals(name):
    def t(E):
        S = ModelSetup(E, inter=False, shared_shape=True)      # every component has data of the same shape
        S.ev = Evaluations(S)
        P = S.P
        c = z3.Int('c0')
        E.assume(z3.And(c >= 0, c < S.nc, hasdata(V(c)), P.n >= 1))
        def go():
            obj = S.objective(O.VectorLeastSquares)
            x = vec(P.nfree(), lambda i: vin(i))
            k, i = E.idx('k'), E.idx('i')
            if name == '__call__':
                r = E.call(Bound(O.VectorLeastSquares.__call__, obj), [x])
                E.prove_value('the residual of every data point', r, STensor([Axis(S.size(V(c)))], [k], ufn(E, 'sqrt', sumsq(S, k))))
            else:
                r = E.call(Bound(O.VectorLeastSquares.eval_jacobian, obj), [x])
                cc = E.idx('c')
                v = V(cc)
                kk = ite(const(v), z3.IntVal(0), k)
                num = E.sum_term(S.nc, cc, hasdata(v), (fval(v, kk) - yval(v, k)) * jval(v, i, kk) / sval(v, k) ** 2)
                E.prove_value('the derivative of the residuals', r, STensor([Axis(S.size(V(c))), Axis(P.n)], [k, i], num / ufn(E, 'sqrt', sumsq(S, k))))
            S.ev.check(x, ['__call__'] + (['eval_jacobian'] if name != '__call__' else []))
        run(E, f'VectorLeastSquares {name}', go)
    return t


task('C06', 'residuals')(residuals('__call__'))
task('C06', 'residual Jacobian')(residuals('eval_jacobian'))


def minimize(name, level):
    def t(E):
        S = ModelSetup(E, inter=False, consts=False, dens='none')
        S.ev = Evaluations(S)
        P = S.P
        E.assume(P.n >= 1)
        one = z3.Bool('one')
        def go():
            if E.branch(S.nc == 1):
                obj = S.objective(O.MinimizeModel)
                x = vec(P.nfree(), lambda i: vin(i))
                r = E.call(Bound(getattr(O.MinimizeModel, name), obj), [x])
                E.prove_value('the model itself', r, S.component(V(z3.IntVal(0)), level))
                S.ev.check(x, [name])
            else:
                try:
                    S.objective(O.MinimizeModel)
                    ok = False
                except Raised as e:
                    ok = E.exc_isinstance(e.val, TypeError)
                E.record('refuses several dependent variables', ok)
        run(E, f'MinimizeModel {name}', go)
    return t


for nm, lv in (('__call__', 0), ('eval_jacobian', 1), ('eval_hessian', 2)):
    task('C06', f'MinimizeModel {nm}')(minimize(nm, lv))


class GaussNewton(O.HessianObjectiveJacApprox):
    """Concrete only so that it can be instantiated."""
    __pyvc__ = True
GaussNewton.__abstractmethods__ = frozenset()


@task('C06', 'Gauss-Newton')
def gauss_newton(E):
    S = ModelSetup(E, inter=False)
    S.ev = Evaluations(S)
    P = S.P
    def go():
        obj = S.objective(GaussNewton)
        x = vec(P.nfree(), lambda i: vin(i))
        r = E.call(Bound(O.HessianObjectiveJacApprox.eval_hessian, obj), [x])
        c, i, j, k = E.idx('c'), E.idx('i'), E.idx('j'), E.idx('k')
        grp = STensor([Axis(P.n), Axis(P.n), S.grp(V(c))], [i, j, k], z3.RealVal(0))
        one = STensor([Axis(P.n), Axis(P.n), Axis(z3.IntVal(1))], [i, j, k], z3.RealVal(0))
        E.prove_value('a zero Hessian of the shape of every component', E.as_seq(r), SSeq([Comp(S.nc, c, True, SIte(hasdata(V(c)), grp, SIte(const(V(c)), one, grp)))]))
        S.ev.check(x, ['__call__'])
    run(E, 'HessianObjectiveJacApprox.eval_hessian', go)


class GaussNewtonLeastSquares(O.LeastSquares, O.HessianObjectiveJacApprox):
    """As combined by covariance_matrix."""
    __pyvc__ = True


class GaussNewtonLikelihood(O.LogLikelihood, O.HessianObjectiveJacApprox):
    __pyvc__ = True


class GaussNewtonMinimize(O.MinimizeModel, O.HessianObjectiveJacApprox):
    __pyvc__ = True


def combined(cls, consts, dens):
    def t(E):
        S = ModelSetup(E, inter=False, consts=consts, dens=dens)
        S.ev = Evaluations(S)
        P = S.P
        c0 = z3.Int('c0')
        E.assume(z3.And(c0 >= 0, c0 < S.nc, hasdata(V(c0)), P.n >= 1))
        if cls is GaussNewtonMinimize: E.assume(S.nc == 1)
        E.contracts.pop(O.HessianObjective.eval_hessian)         # must not be used
        def go():
            obj = S.objective(cls)
            x = vec(P.nfree(), lambda i: vin(i))
            r = E.call(E.getattr(obj, 'eval_hessian'), [x])
            i, j, k = E.idx('i'), E.idx('j'), E.idx('k')
            if cls is GaussNewtonLeastSquares: w = total(S, lambda v, k, kk: jval(v, i, kk) * jval(v, j, kk) / sval(v, k) ** 2, lambda c: hasdata(V(c)))
            elif cls is GaussNewtonLikelihood: w = total(S, lambda v, k, kk: jval(v, i, k) * jval(v, j, k) / fval(v, k) ** 2, lambda c: True)
            else:
                E.prove_value('zero', r, STensor([Axis(P.n), Axis(P.n), S.grp(V(z3.IntVal(0)))], [i, j, k], z3.RealVal(0)))
                return
            E.prove_value('the Hessian without the second derivatives of the model', r, STensor([Axis(P.n), Axis(P.n)], [i, j], w))
        run(E, cls.__name__, go)
    return t


task('C06', 'Gauss-Newton least squares')(combined(GaussNewtonLeastSquares, True, 'all'))
task('C06', 'Gauss-Newton likelihood')(combined(GaussNewtonLikelihood, False, 'none'))
task('C06', 'Gauss-Newton model')(combined(GaussNewtonMinimize, False, 'none'))
