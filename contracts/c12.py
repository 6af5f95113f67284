"""C12: covariance matrices (inverse Hessian, scaled for relative sigmas) and their accessors."""
from contracts.objs import *
from symfit.core import fit as F, fit_results as FR
import numpy as np

hall = z3.Function('hessian', I, I, R)
hinv = z3.Function('inverse_of_hessian', I, I, R)
cov = z3.Function('covariance_entry', I, I, R)
best = z3.Function('best_fit', I, R)
value = z3.Real('objective_at_best_fit')


class Blind(O.BaseObjective):
    """An objective without a Hessian."""
    __pyvc__ = True
    def __call__(self, ordered_parameters=[], **parameters): return 0


class LSub(O.LeastSquares): pass


def formula(cls, shapes, hess='matrix'):
    def t(E):
        S = ModelSetup(E, MO.Model, consts=False, flat=shapes == 'distinct shapes')
        if shapes == 'one component': S.nc = z3.IntVal(1); E.assume(S.isdep(z3.IntVal(0)))
        else:
            E.declare_injective(skey)
            E.declare_injective(z3.Function('gsize', I, I))
        P = S.P
        E.assume(P.n >= 1)
        reserve(E, 'self', 'best_fit_params', 'objective', 'ordered_parameters', 'include_model_hessian')
        absolute = z3.Bool('absolute_sigma')
        def go():
            i = E.idx('i')
            asked = []
            want = [('loop', P.n, i, True, SStr(pname(P.fn(i))), best(i))]
            def point(a, k, s, who):
                ops = [('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else [])
                form(len(a) == 1, who)
                E.prove_value(f'{who} at the best fit', SMap(ops), SMap(want))
            def hessian(E, a, k, s):
                point(a, k, s, 'the Hessian'); asked.append(a[0])
                if hess == 'none': return None
                x, y = E.idx('h'), E.idx('h')
                extra = [] if hess == 'matrix' else [Axis(z3.IntVal(1))]
                return STensor([Axis(P.n), Axis(P.n)] + extra, [x, y] + [E.idx('o') for _ in extra], hall(x, y))
            def call(E, a, k, s): point(a, k, s, 'the objective'); return value
            if cls is not Blind:
                for c in cls.__mro__:
                    if 'eval_hessian' in vars(c): E.contracts[vars(c)['eval_hessian']] = hessian
                    if '__call__' in vars(c) and c is not object: E.contracts[vars(c)['__call__']] = call
            def inv(E, a, k, s):
                x, y = E.idx('h'), E.idx('h')
                E.prove_value('the Hessian is what is inverted', a[0], STensor([Axis(P.n), Axis(P.n)], [x, y], hall(x, y)))
                if E.branch(z3.Bool('singular')): raise Raised(np.linalg.LinAlgError('singular matrix'))
                return mat(P.n, P.n, lambda x, y: hinv(x, y))
            E.contracts[np.linalg.inv] = inv
            E.trusted.add('numpy.linalg.inv')
            model = S.model()
            data = S.datadict()
            objective = E.new_obj(cls, model=model, data=data)
            fit = E.new_obj(F.Fit, model=model, data=data, objective=objective, absolute_sigma=absolute, sigmas_provided=z3.Bool('sigmas_provided'))
            j = E.idx('j')
            params = E.new_dict([('loop', P.n, j, True, P.at(j), best(j))])
            c = E.idx('c')
            dof = E.sum_term(S.nc, c, And(S.isdep(c), hasdata(V(c))), real(S.size(V(c)))) - P.n
            E.assume(Not(dof == 0))     # as many data points as parameters: 0/0
            r = E.force(E.method(fit, '_covariance_matrix', params, objective))
            if cls is Blind or hess == 'none':
                E.prove('no covariance matrix without a Hessian', r is None)
                return
            if E.branch(z3.Bool('singular')):
                E.prove('no covariance matrix for a singular Hessian', r is None)
                return
            if issubclass(cls, O.LeastSquares) and not E.branch(absolute):
                s2 = 2 * value / z3.ToReal(z3.simplify(dof)) if z3.simplify(dof).is_int() else 2 * value / dof
                E.prove_value('scaled by the residual sum of squares per degree of freedom', r, mat(P.n, P.n, lambda x, y: s2 * hinv(x, y)))
            else: E.prove_value('the inverse Hessian', r, mat(P.n, P.n, lambda x, y: hinv(x, y)))
        run(E, f'HasCovarianceMatrix._covariance_matrix, {cls.__name__}, {shapes}', go)
    return t

for c in (O.LeastSquares, LSub, O.LogLikelihood, O.MinimizeModel):
    for sh in ('one component', 'distinct shapes'):
        task('C12', f'formula-{c.__name__}-{sh}')(formula(c, sh, 'extra' if c is O.MinimizeModel else 'matrix'))
task('C12', 'formula-none')(formula(O.LeastSquares, 'one component', 'none'))
task('C12', 'formula-blind')(formula(Blind, 'one component'))


def choose(cls, fails):
    """The exact Hessian first; if that gives nothing, the Jacobian approximation of the same objective."""
    def t(E):
        P = Params(E)
        def go():
            log = []
            model = E.new_obj(MO.Model, _params=P.list())
            data = E.new_dict()
            objective = E.new_obj(cls, model=model, data=data)
            fit = E.new_obj(F.Fit, model=model, data=data, objective=objective, absolute_sigma=z3.Bool('a'))
            params = E.new_dict()
            def one(E, a, k, s):
                b = dict(zip(('self', 'best_fit_params', 'objective'), a)); b.update(k)
                log.append(b['objective'])
                E.prove_value('at the best fit', b['best_fit_params'], params)
                if len(log) <= fails: return None
                return SStr(z3.Int('matrix'))
            E.contracts[F.HasCovarianceMatrix._covariance_matrix] = one
            made = []
            def init(E, a, k, s):
                b = dict(zip(('self', 'model', 'data'), a)); b.update(k)
                E.setattr(b['self'], 'model', b['model']); E.setattr(b['self'], 'data', b['data'])
            E.contracts[O.BaseObjective.__init__] = init
            r = E.method(fit, 'covariance_matrix', params)
            E.prove_value('the exact Hessian first', log[0], objective)
            if fails == 0: E.prove_value('the exact covariance', r, SStr(z3.Int('matrix'))); return
            E.prove('then the approximation, once', len(log) == 2)
            o = log[1]
            oc = E.rec(o).cls
            E.prove('of the same kind of objective', issubclass(oc, O.LeastSquares if cls is O.VectorLeastSquares else cls))
            E.prove('from the Jacobian', issubclass(oc, O.HessianObjectiveJacApprox) and oc.__mro__.index(O.HessianObjectiveJacApprox) < oc.__mro__.index(O.HessianObjective) if issubclass(oc, O.HessianObjective) else issubclass(oc, O.HessianObjectiveJacApprox))
            E.prove_value('for the same model and data', (E.getattr(o, 'model'), E.getattr(o, 'data')), (model, data))
            if fails == 1: E.prove_value('the approximate covariance', r, SStr(z3.Int('matrix')))
            else: E.prove('None when both fail', E.force(r) is None)
        run(E, f'HasCovarianceMatrix.covariance_matrix, {cls.__name__}, {fails} fail', go)
    return t

for c in (O.LeastSquares, O.VectorLeastSquares, O.LogLikelihood, LSub):
    for k in (0, 1, 2): task('C12', f'choice-{c.__name__}-{k}')(choose(c, k))


def accessors(none):
    def t(E):
        P = Params(E)
        def go():
            model = E.new_obj(MO.Model, _params=P.list(), params=P.list())
            i = E.idx('i')
            matrix = None if none else mat(P.n, P.n, lambda x, y: cov(x, y))
            res = E.new_obj(FR.FitResults, model=model, covariance_matrix=matrix, gof_qualifiers=E.new_dict(),
                            params=E.new_dict([('loop', P.n, i, True, SStr(pname(P.fn(i))), best(i))], collections.OrderedDict))
            a, b = z3.Ints('a b')
            E.assume(z3.And(a >= 0, a < P.n, b >= 0, b < P.n))
            from pyvc.ext import ufn
            E.prove_value('variance', E.method(res, 'variance', P.at(a)), None if none else cov(a, a))
            E.prove_value('stdev', E.method(res, 'stdev', P.at(a)), None if none else ufn(E, 'sqrt', cov(a, a)))
            E.prove_value('covariance', E.method(res, 'covariance', P.at(a), P.at(b)), None if none else cov(a, b))
            E.prove_value('value', E.method(res, 'value', P.at(a)), best(a))
        run(E, 'FitResults.variance, stdev, covariance, value' + (' without a covariance matrix' if none else ''), go)
    return t

task('C12', 'accessors')(accessors(False))
task('C12', 'accessors-none')(accessors(True))
