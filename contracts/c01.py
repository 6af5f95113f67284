"""C01: every parameter is reported once, in order; fixed ones with their value, free ones with the optimizer's coordinate."""
from contracts.minim import *


def spec_map(S):
    k = z3.Int('k!spec')
    return SMap([('loop', S.P.n, k, True, SStr(pname(S.P.fn(k))), S.packed()(k))])


def check_result(E, S, r):
    E.prove_value('params maps every parameter name to its own value', E.getattr(r, 'params'), spec_map(S))
    E.prove_value('params lists the parameters in order', E.as_seq(E.getattr(r, 'params')), seq(S.P.n, lambda i: SStr(pname(S.P.fn(i)))))
    j = z3.Int('j'); E.assume(z3.And(j >= 0, j < S.P.n))
    E.prove_value('value(p) is the value of p', E.method(r, 'value', S.P.at(j)), S.packed()(j))


def harness(cls, **kw):
    def t(E):
        S = Setup(E, cls, **kw)
        def go():
            m = S.make()
            check_result(E, S, E.method(m, 'execute'))
        run(E, cls.__name__ + '.execute', go)
    return t

for c in SCIPY:
    task('C01', c.__name__)(harness(c))
