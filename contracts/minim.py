"""Common set-up of the minimizer harnesses: real minimizer objects over a symbolic parameter list, scipy replaced by its contract."""
import inspect
from pyvc.lib import *
from symfit.core import minimizers as M, fit_results as FR, objectives as O, models as MO
from scipy.optimize import OptimizeResult
import scipy.optimize as so

SCIPY = [c for c in vars(M).values() if isinstance(c, type) and issubclass(c, M.ScipyMinimize) and c.__module__ == M.__name__
         and c.__name__ not in ('ScipyMinimize', 'ScipyGradientMinimize', 'ScipyBoundedMinimizer', 'ScipyHessianMinimize', 'ScipyConstrainedMinimize')]

xres = z3.Function('x_found', I, R)
gall = z3.Function('gradient', I, R)
hall = z3.Function('hessian', I, I, R)
jres = z3.Function('residual_jacobian', I, I, R)


class Capture:
    """Arguments the optimizer received."""
    def __init__(self): self.calls = []


def optimizer_contract(E, P, cap, extra=None):
    """scipy's contract: returns an OptimizeResult whose x has one entry per entry of x0 (per bound)."""
    def result(n):
        ops = [('set', 'message', SStr(z3.Int('message'))), ('set', 'fun', z3.Real('fun_found')), ('set', 'nit', z3.Int('nit')), ('set', 'nfev', z3.Int('nfev')),
               ('set', 'niter', z3.Int('niter')), ('set', 'success', z3.Bool('success')), ('set', 'x', vec(n, lambda i: xres(i)))]
        return E.new_dict(ops, OptimizeResult)
    def handler(kind, names):
        def h(E, args, kwargs, star):
            form(len(args) <= len(names) and not any(isinstance(a, Star) for a in args), kind)
            d = dict(zip(names, args)); d.update(kwargs)
            cap.calls.append((kind, d, star))
            if kind == 'differential_evolution':
                n = E.seq_len(E.as_seq(E.iter_value(d['bounds'])))
            else:
                n = E.seq_len(E.as_seq(E.iter_value(d['x0'])))
            return result(n)
        return h
    E.contracts[so.minimize] = handler('minimize', list(inspect.signature(so.minimize).parameters))
    E.contracts[so.differential_evolution] = handler('differential_evolution', list(inspect.signature(so.differential_evolution).parameters))
    E.contracts[so.basinhopping] = handler('basinhopping', list(inspect.signature(so.basinhopping).parameters))
    E.contracts[so.least_squares] = handler('least_squares', list(inspect.signature(so.least_squares).parameters))
    E.contracts[so.BFGS] = lambda E, a, k, s: E.new_obj(so.BFGS)
    E.contracts[so.NonlinearConstraint] = nonlinear
    for f in ('scipy.optimize.minimize', 'scipy.optimize.differential_evolution', 'scipy.optimize.basinhopping', 'scipy.optimize.least_squares'):
        E.trusted.add(f)


def nonlinear(E, args, kwargs, s):
    import inspect
    b = inspect.signature(so.NonlinearConstraint).bind(*args, **kwargs)
    return E.new_obj(so.NonlinearConstraint, **b.arguments)


class Setup:
    def __init__(self, E, cls, objcls=None, derivs=True, extra=None, P=None):
        self.E = E
        self.P = P or Params(E)
        self.cap = Capture()
        optimizer_contract(E, self.P, self.cap)
        E.contracts[FR.FitResults._gof_qualifiers] = lambda E, a, k, s: E.new_dict([('set', 'objective_value', z3.Real('objective_value'))])
        self.objcls = objcls or (O.VectorLeastSquares if cls is M.MINPACK else O.LeastSquares)
        self.obj = E.new_obj(self.objcls, model=E.new_obj(MO.Model, params=self.P.list()))
        self.plist = self.P.list()
        self.derivs = derivs
        self.cls = cls
        n = self.P.n
        if self.objcls is O.VectorLeastSquares:
            E.contracts[O.VectorLeastSquares.eval_jacobian] = lambda E, a, k, s: (self.asked.append((a, k, s)), mat(z3.Int('ndata'), n, lambda i, j: jres(i, j)))[1]
        else:
            E.contracts[self.objcls.eval_jacobian] = lambda E, a, k, s: (self.asked.append((a, k, s)), vec(n, lambda i: gall(i)))[1]
        E.assume(z3.Int('ndata') >= 1)
        if hasattr(self.objcls, 'eval_hessian'):
            E.contracts[self.objcls.eval_hessian] = lambda E, a, k, s: (self.asked.append((a, k, s)), mat(n, n, lambda i, j: hall(i, j)))[1]
        self.asked = []
        self.extra = extra or {}

    def make(self):
        E = self.E
        kw = dict(self.extra)
        if self.derivs and issubclass(self.cls, M.GradientMinimizer): kw['jacobian'] = E.getattr(self.obj, 'eval_jacobian')
        if self.derivs and issubclass(self.cls, M.HessianMinimizer): kw['hessian'] = E.getattr(self.obj, 'eval_hessian')
        return E.call(self.cls, [self.obj, self.plist], kw)

    def packed(self):
        """Specification: value of parameter i in the results."""
        P = self.P
        return lambda i: ite(pfixed(P.fn(i)), pvalue(P.fn(i)), xres(P.rank(i)))
