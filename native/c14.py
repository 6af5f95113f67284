"""C14: chains of recording minimizers."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, describe


def stubs():
    from symfit.core.minimizers import BaseMinimizer, DummyModel
    from symfit.core.fit_results import FitResults
    def make(name):
        def execute(self, **options):
            # the starting point is read once, as an optimizer does
            self.log.append((self, list(self.initial_guesses), options))
            x = self.answer; it = iter(x)
            popt = [p.value if p.fixed else next(it) for p in self.parameters]
            return FitResults(DummyModel(params=self.parameters), popt, None, self, self.objective, 'ok', fun=self.tag, x=x, **({} if self.nit is None else {'nit': self.nit}))
        return type(name, (BaseMinimizer,), dict(execute=execute))
    return [make(n) for n in ('Alpha', 'Beta', 'Gamma')]


@check('C14', n=80)
def chain(rng):
    from symfit.core.minimizers import ChainedMinimizer
    import sympy as sp
    n = rng.randint(1, 5)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, .4, .7]))
    free = [p for p in ps if not p.fixed]
    S = stubs()
    def f(**kw): return sum(kw.values())
    log, ms = [], []
    for i in range(rng.randint(1, 5)):
        m = rng.choice(S[:rng.randint(1, 3)])(f, ps)
        m.log, m.answer, m.nit, m.tag = log, [rng.uniform(-3, 3) for _ in free], rng.choice([None, 0, rng.randint(1, 50), rng.randint(1, 50)]), float(i)
        # a minimizer may have been used before, elsewhere
        if rng.random() < .3: m.initial_guesses = [rng.uniform(-3, 3) for _ in free]
        ms.append(m)
    names = []
    cnt = {}
    for m in ms:
        nm = type(m).__name__; cnt[nm] = cnt.get(nm, 0) + 1
        names.append(nm if cnt[nm] == 1 else f'{nm}_{cnt[nm]}')
    ch = ChainedMinimizer(f, ps, minimizers=ms)
    sig = names
    opts = {s: {'o%d' % i: rng.random(), 'tol': i} for i, s in enumerate(sig) if rng.random() < .6}
    guess = None
    if rng.random() < .4:
        guess = [rng.uniform(-1, 1) for _ in free]; ch.initial_guesses = guess
    keep = {k: dict(v) for k, v in opts.items()}
    for rep in range(2):
        log.clear()
        # a minimizer may find exactly the value a parameter has, or its own guess
        for m in ms: m.answer = [rng.choice([rng.uniform(-3, 3)] * 4 + [p.value, 0.0]) for p in free]
        res = ch.execute(**opts)
        assert [e[0] for e in log] == ms, 'every minimizer once, in order'
        want = guess if guess is not None else [p.value for p in free]
        for i, (m, g, o) in enumerate(log):
            assert g == list(want), f'minimizer {i} starts from {g}, predecessor found {want}'
            assert o == keep.get(sig[i], {}), (o, keep.get(sig[i], {}))
            want = m.answer
        it = iter(ms[-1].answer)
        assert res.params == {p.name: (p.value if p.fixed else next(it)) for p in ps}
        assert res.objective_value == ms[-1].tag
        assert res.iterations == sum(m.nit or 0 for m in ms), (res.iterations, [m.nit for m in ms])
    try: ch.execute(Nonsense={})
    except TypeError: pass
    else: raise AssertionError('options for an unknown minimizer accepted')
    return f'{names} {describe(ps)}'


@check('C14', n=4)
def numbering(rng):
    """The names options are passed under: plain when unique, numbered when repeated."""
    from symfit.core.minimizers import ChainedMinimizer
    A, B, C = stubs()
    ps = mkparams(rng, 2, p_fixed=0)
    f = lambda **k: 0.0
    ch = ChainedMinimizer(f, ps, minimizers=[A(f, ps), B(f, ps), A(f, ps), A(f, ps)])
    got = list(ch.__signature__.parameters)
    assert got == ['Alpha', 'Beta', 'Alpha_2', 'Alpha_3'], got
    return 'numbering'


@check('C14', n=6)
def real_chain(rng):
    """Chains of real minimizers through Fit."""
    from symfit import Fit, parameters, variables
    from symfit.core import minimizers as M
    a, b = parameters('a, b', value=[rng.uniform(-2, 2), rng.uniform(-2, 2)])
    x, y = variables('x, y')
    xs = np.linspace(1, 10, 20); ys = 2 * xs + 1
    ms = [rng.choice([M.MINPACK, M.NelderMead, M.BFGS, M.LBFGSB, M.Powell, M.COBYLA, M.SLSQP]) for _ in range(rng.randint(1, 3))] + [M.BFGS]
    res = Fit({y: a * x + b}, x=xs, y=ys, minimizer=ms).execute()
    close(list(res.params.values()), [2, 1], 1e-3)
    assert list(res.params) == ['a', 'b'] and res.iterations >= 0
    return ' '.join(m.__name__ for m in ms)
