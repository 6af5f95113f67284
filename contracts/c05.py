"""C05: value, gradient and Hessian of the log-likelihood objective."""
from contracts.objs import *
from pyvc.ext import ufn

vin = z3.Function('v_in', I, R)


def harness(name, names, flat=False):
    def t(E):
        S = ModelSetup(E, inter=False, consts=False, dens='none', flat=flat)       # every component of a shape of its own
        S.ev = Evaluations(S)
        P = S.P
        E.assume(P.n >= 1)
        yes = lambda c: S.isdep(c)
        def go():
            obj = S.objective(O.LogLikelihood)
            x = vec(P.nfree(), lambda i: vin(i))
            r = E.call(Bound(getattr(O.LogLikelihood, name), obj), [x])
            i, j = E.idx('i'), E.idx('j')
            if name == '__call__':
                E.prove_num('minus the sum of log f', r, -total(S, lambda v, k, kk: ufn(E, 'log', fval(v, k)), yes))
            elif name == 'eval_jacobian':
                g = -total(S, lambda v, k, kk: jval(v, i, k) / fval(v, k), yes)
                E.prove_value('the derivative of the value', r, STensor([Axis(P.n)], [i], g))
            else:
                h = -total(S, lambda v, k, kk: hval(v, i, j, k) / fval(v, k) - jval(v, i, k) * jval(v, j, k) / fval(v, k) ** 2, yes)
                E.prove_value('the second derivative of the value', r, STensor([Axis(P.n), Axis(P.n)], [i, j], h))
            S.ev.check(x, names)
        run(E, f'LogLikelihood {name}', go)
    return t


for flat in (False, True):
    t = ' (one-dimensional data)' if flat else ''
    task('C05', 'value' + t)(harness('__call__', ['__call__'], flat))
    task('C05', 'gradient' + t)(harness('eval_jacobian', ['__call__', 'eval_jacobian'], flat))
    task('C05', 'Hessian' + t)(harness('eval_hessian', ['__call__', 'eval_jacobian', 'eval_hessian'], flat))
