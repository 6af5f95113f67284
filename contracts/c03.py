"""C03: the model is evaluated at exactly the requested point; exactly the dependent components come back, shaped as their data."""
from contracts.objs import *

vin = z3.Function('v_in', I, R)
vfixed = z3.Function('v_given_for_fixed', I, R)


def point(S):
    """Keyword arguments the model must receive: every parameter and every independent variable by name."""
    E, P = S.E, S.P
    k, i = E.idx('k'), E.idx('i')
    val = ite(pfixed(P.fn(k)), pvalue(P.fn(k)), vin(P.rank(k)))
    return SMap([('loop', P.n, k, True, SStr(pname(P.fn(k))), val), ('loop', S.nx, i, True, SStr(pname(X(i))), S.data(X(i), xdat))])


def expected(S, level):
    c = S.E.idx('c')
    if S.dens == 'none': return SSeq([Comp(S.nc, c, S.isdep(c), S.component(V(c), level))])
    return SSeq([Comp(S.nc, c, S.isdep(c), SIte(hasdata(V(c)), S.shaped(V(c), level), S.component(V(c), level)))])


class Plain(O.HessianObjective):
    """Concrete only so that it can be instantiated."""
    __pyvc__ = True
Plain.__abstractmethods__ = frozenset()


class PlainIndependent(O.HessianObjective, O.BaseIndependentObjective):
    """The same for objectives without dependent data."""
    __pyvc__ = True
PlainIndependent.__abstractmethods__ = frozenset()


def harness(name, level, how, cls=Plain):
    base = {0: O.BaseObjective, 1: O.GradientObjective, 2: O.HessianObjective}[level]
    def t(E):
        S = ModelSetup(E, dens='all' if cls is Plain else 'none')
        P = S.P
        def go():
            obj = S.objective(cls)
            fn = Bound(getattr(base, name), obj)
            if how == 'positional':
                r = E.call(fn, [vec(P.nfree(), lambda i: vin(i))])
            else:
                # fixed parameters may be named too; they stay at their fixed value
                k, j = E.idx('k'), E.idx('j')
                other = [('loop', P.n, j, pfixed(P.fn(j)), SStr(pname(P.fn(j))), vfixed(j))] if how == 'all named' else []
                r = E.call(fn, [], {}, SMap([('loop', P.n, k, P.free(k), SStr(pname(P.fn(k))), vin(P.rank(k)))] + other))
            E.prove('the model is called once', len(S.calls) == 1)
            nm, args, kw, star = S.calls.pop()
            E.prove('with keywords only', len(args) == 0 and nm == name)
            ops = [('set', a, b) for a, b in kw.items()] + (list(star.ops) if star is not None else [])
            E.prove_value('the point', SMap(ops), point(S))
            E.prove_value('the components', E.as_seq(r), expected(S, level))
        run(E, f'{name} ({how}, {cls.__name__})', go)
    return t


for nm, lv in (('__call__', 0), ('eval_jacobian', 1), ('eval_hessian', 2)):
    for how in ('positional', 'named', 'all named'):
        task('C03', f'{nm}-{how}')(harness(nm, lv, how))
        task('C03', f'{nm}-{how}-independent')(harness(nm, lv, how, PlainIndependent))


# ---------------------------------------------------------------------- components along the leading axis of their data
ka = z3.Function('rows_key', Obj, I)
kb = z3.Function('columns_key', Obj, I)
y2 = z3.Function('y2', Obj, I, I, R)
s2 = z3.Function('sigma2', Obj, I, I, R)
f2 = [z3.Function('f_rows', Obj, *[I] * (k + 1), R) for k in range(3)]


class Leading(ModelSetup):
    """Tables as data; the components have one value per row, which counts for the whole row."""
    def grps(self, v): return [Axis(self.E.group_size(ka(v))), Axis(self.E.group_size(kb(v)))]
    def data(self, v, fn):
        if fn is xdat: return ModelSetup.data(self, v, fn)
        a, b = self.E.idx('r'), self.E.idx('c')
        return STensor(self.grps(v), [a, b], (y2 if fn is yval else s2)(v, a, b))
    def component(self, v, level=0):
        lead = [self.E.idx('p') for _ in range(level)]; a = self.E.idx('r')
        return STensor([Axis(self.P.n)] * level + [self.grps(v)[0]], lead + [a], f2[level](v, *lead, a))
    def shaped(self, v, level=0):
        lead = [self.E.idx('p') for _ in range(level)]; a, b = self.E.idx('r'), self.E.idx('c')
        return STensor([Axis(self.P.n)] * level + self.grps(v), lead + [a, b], f2[level](v, *lead, a))


def rows(name, level):
    base = {0: O.BaseObjective, 1: O.GradientObjective, 2: O.HessianObjective}[level]
    def t(E):
        S = Leading(E, dens='all')
        def go():
            obj = S.objective(Plain)
            r = E.call(Bound(getattr(base, name), obj), [vec(S.P.nfree(), lambda i: vin(i))])
            E.prove('the model is called once', len(S.calls) == 1)
            nm, args, kw, star = S.calls.pop()
            ops = [('set', a, b) for a, b in kw.items()] + (list(star.ops) if star is not None else [])
            E.prove_value('the point', SMap(ops), point(S))
            E.prove_value('the components', E.as_seq(r), expected(S, level))
        run(E, f'{name} (one value per row of data)', go)
    return t

for nm, lv in (('__call__', 0), ('eval_jacobian', 1), ('eval_hessian', 2)): task('C03', f'{nm}-rows')(rows(nm, lv))
