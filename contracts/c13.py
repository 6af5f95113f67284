"""C13: goodness-of-fit numbers: which exist, for every kind of objective, and what they are."""
from contracts.objs import *
from symfit.core import fit_results as FR, minimizers as M
from pyvc.ext import ufn
from pyvc.engine import Star

fun = z3.Real('fun_reported')
fvec = z3.Function('residual_reported', I, R)
popt = z3.Function('popt', I, R)
ALL = ('objective_value', 'chi_squared', 'r_squared', 'log_likelihood', 'likelihood')


class Custom(O.BaseObjective):
    __pyvc__ = True
    def __call__(self, ordered_parameters=[], **parameters): return 0


class LeastSquaresSub(O.LeastSquares):
    __pyvc__ = True


OBJ = {O.LeastSquares: ('objective_value', 'chi_squared', 'r_squared'), LeastSquaresSub: ('objective_value', 'chi_squared', 'r_squared'),
       O.VectorLeastSquares: ('objective_value', 'chi_squared', 'r_squared'), O.LogLikelihood: ('objective_value', 'log_likelihood', 'likelihood'),
       O.MinimizeModel: ('objective_value',), Custom: ('objective_value',)}


def qualifiers(cls):
    def t(E):
        P = Params(E)
        N = z3.Int('npoints'); E.assume(N >= 1)
        asked = []
        def r2(E, a, k, s):
            names = ('model', 'fit_result', 'data')
            d = dict(zip(names, a)); d.update(k)
            asked.append(d)
            return z3.Real('the_r_squared')
        E.contracts[FR.r_squared] = r2
        def go():
            model = E.new_obj(MO.Model, _params=P.list())
            data = E.new_dict([('set', 'x', z3.Real('xdata'))])
            objective = E.new_obj(cls, model=model, data=data)
            reported = vec(N, lambda i: fvec(i)) if cls is O.VectorLeastSquares else fun
            res = E.call(FR.FitResults, [model, vec(P.n, lambda i: popt(i)), None, E.new_obj(M.BFGS), objective, SStr(z3.Int('message'))], {'fun': reported, 'nit': z3.Int('nit')})
            want = {'objective_value': reported, 'r_squared': z3.Real('the_r_squared')}
            if cls is O.VectorLeastSquares:
                i = E.idx('i')
                want['chi_squared'] = E.sum_term(N, i, True, fvec(i) ** 2)
            else: want['chi_squared'] = 2 * fun
            want['log_likelihood'] = -fun
            want['likelihood'] = ufn(E, 'exp', -fun)
            E.prove_value('exactly the qualifiers of this objective', E.getattr(res, 'gof_qualifiers'), E.new_dict([('set', q, want[q]) for q in OBJ[cls]]))
            for q in ALL + ('nonsense', 'gof', 'chi2'):
                try: v = E.getattr(res, q)
                except Raised as e:
                    E.prove(f'{q} does not exist', q not in OBJ[cls] and E.exc_isinstance(e.val, AttributeError))
                else:
                    E.prove(f'{q} may exist', q in OBJ[cls])
                    if q in OBJ[cls]: E.prove_value(f'{q} as an attribute', v, want[q])
            if 'r_squared' in OBJ[cls]:
                E.prove('r_squared is asked for', len(asked) >= 1)
                for d in asked: E.prove('... of this model, these results and these data', d['model'] == model and d['fit_result'] == res and d['data'] == data)
            asked.clear()
        run(E, f'qualifiers of {cls.__name__}', go)
    return t


for c in OBJ: task('C13', f'qualifiers-{c.__name__}')(qualifiers(c))


def rsq(consts, inter, flat=False):
    def t(E):
        S = ModelSetup(E, consts=consts, inter=inter, flat=flat)
        P = S.P
        c0 = z3.Int('c0')
        E.assume(z3.And(c0 >= 0, c0 < S.nc, hasdata(V(c0)), P.n >= 1))
        if inter: E.assume(dep(V(c0)))
        def go():
            m, data = S.model(), S.datadict()
            i = E.idx('i')
            fr = E.new_obj(FR.FitResults, params=E.new_dict([('loop', P.n, i, True, SStr(pname(P.fn(i))), popt(i))], collections.OrderedDict))
            E.contracts[S.cls.__call__] = S.answer('__call__', 0)
            r = E.call(FR.r_squared, [m, fr, data])
            # the one evaluation
            E.prove('the model is evaluated once', len(S.calls) == 1)
            nm, a, k, s = S.calls[-1]
            check_call(E, S, a, k, s)
            S.calls.clear()
            res = total(S, lambda v, k, kk: (yval(v, k) - fval(v, kk)) ** 2, lambda c: And(S.isdep(c), hasdata(V(c))))
            def mean(v):
                q = E.idx('q')
                return E.sum_term(S.size(v), q, True, yval(v, q)) / z3.ToReal(S.size(v))
            c, kd = E.idx('c'), E.idx('k')
            v = V(c)
            tot = E.sum_term(S.nc, c, And(S.isdep(c), hasdata(v)), E.sum_term(S.size(v), kd, True, (yval(v, kd) - mean(v)) ** 2))
            E.prove_value('one minus the residual over the total sum of squares', r, 1 - res / tot)
        run(E, 'r_squared', go)
    return t


def check_call(E, S, a, k, s):
    """Every independent variable at its data (by position or by name), every parameter at its best-fit value."""
    i, j = E.idx('i'), E.idx('j')
    xs = ('loop', S.nx, i, True, SStr(pname(X(i))), S.data(X(i), xdat))
    ps = ('loop', S.P.n, j, True, SStr(pname(S.P.fn(j))), popt(j))
    named = SMap([('set', p, q) for p, q in k.items()] + (list(s.ops) if s is not None else []))
    if not a:
        E.prove_value('the point, by name', named, SMap([ps, xs]))
        return
    segs = []
    for x in a: segs += E.as_seq(x.seq).segs if isinstance(x, Star) else [Unit(x)]
    E.prove_value('the data of the independent variables, in order', SSeq(segs), seq(S.nx, lambda i: S.data(X(i), xdat)))
    E.prove_value('the best-fit parameters, by name', named, SMap([ps]))


task('C13', 'r_squared')(rsq(True, True))
task('C13', 'r_squared-independent')(rsq(False, False))
task('C13', 'r_squared (one-dimensional data)')(rsq(True, True, True))
