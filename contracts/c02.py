"""C02: initial guess, bounds, gradient, Hessian and residual Jacobian given to the optimizer concern exactly the free parameters."""
from contracts.minim import *

INF = float('inf')


def harness(cls, derivs=True, **kw):
    def t(E):
        S = Setup(E, cls, derivs=derivs, **kw)
        P = S.P
        E.assume(P.nfree() >= 1)
        def go():
            m = S.make()
            E.method(m, 'execute')
            E.prove('the optimizer is called once', len(S.cap.calls) == 1)
            kind, d, star = S.cap.calls.pop()
            got = d
            mk = None
            if kind == 'basinhopping':
                E.prove_value('x0', E.as_seq(E.iter_value(d['x0'])), P.freeseq(lambda i: pvalue(P.fn(i))))
                mk = E.as_map(d['minimizer_kwargs'])
                look = lambda k: (lambda pv: pv[1] if pv[0] is True else None)(E.map_lookup(mk, k))
                got = dict(jac=look('jac'), hess=look('hess'), bounds=look('bounds'))
            elif kind == 'differential_evolution':
                E.prove_value('bounds', E.as_seq(E.iter_value(d['bounds'])), bounds_spec(P))
                return
            else:
                E.prove_value('x0', E.as_seq(E.iter_value(d['x0'])), P.freeseq(lambda i: pvalue(P.fn(i))))
            if kind == 'least_squares':
                lo, hi = [E.as_seq(E.iter_value(b)) for b in E.force(d['bounds'])]
                E.prove_value('lower bounds', lo, P.freeseq(lambda i: ite(phasmin(P.fn(i)), pmin(P.fn(i)), -INF)))
                E.prove_value('upper bounds', hi, P.freeseq(lambda i: ite(phasmax(P.fn(i)), pmax(P.fn(i)), INF)))
                if derivs:
                    r = E.call(d['jac'], [xvec(P)])
                    E.prove_value('residual jacobian', r, free_cols(E, P))
                return
            if issubclass(cls, M.BoundedMinimizer) or (kind == 'basinhopping' and issubclass(M.BFGS, M.BoundedMinimizer)):
                E.prove_value('bounds', E.as_seq(E.iter_value(got['bounds'])), bounds_spec(P))
            if issubclass(cls, M.GradientMinimizer) and derivs:
                r = E.call(got['jac'], [xvec(P)])
                E.prove_value('gradient', r, free_vec(E, P))
                a, k, s = S.asked[-1]
                a, k = positional(('self', 'ordered_parameters'), a, k)
                E.prove_value('gradient is taken at the requested point', a[1], xvec(P))
            if issubclass(cls, M.HessianMinimizer) and derivs:
                r = E.call(got['hess'], [xvec(P)])
                E.prove_value('Hessian', r, free_mat(E, P))
        run(E, cls.__name__ + ('' if derivs else ' without derivatives'), go)
    return t


def xvec(P):
    xin = z3.Function('x_in', I, R)
    return vec(P.nfree(), lambda i: xin(i))

def bounds_spec(P):
    return P.freeseq(lambda i: (ite(phasmin(P.fn(i)), pmin(P.fn(i)), None), ite(phasmax(P.fn(i)), pmax(P.fn(i)), None)))

def sel(E, P, k):
    j = z3.Int('$r')
    return E.sel(P.n, j, P.free(j), k)

def free_vec(E, P): return vec(P.nfree(), lambda k: gall(sel(E, P, k)))
def free_mat(E, P): return mat(P.nfree(), P.nfree(), lambda a, b: hall(sel(E, P, a), sel(E, P, b)))
def free_cols(E, P): return mat(z3.Int('ndata'), P.nfree(), lambda a, b: jres(a, sel(E, P, b)))

for c in SCIPY:
    task('C02', c.__name__)(harness(c))
    if issubclass(c, M.GradientMinimizer) and c is not M.MINPACK:
        task('C02', c.__name__ + '-noderiv')(harness(c, derivs=False))
