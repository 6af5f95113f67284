"""C21: expressions as functions."""
import numpy as np
import sympy as sp
from native.base import check, close, Skip
from native.util import npeval, NAMES

ODD = ['a', 'b1', 'B', 'x_2', 'x_10', 'Zeta', 'alpha', 'lam', 'k9', 'k10', 'e', 'u']


def symbols(rng, nx, n):
    from symfit import Parameter, Variable
    names = rng.sample(ODD, nx + n)
    return [Variable(s) for s in names[:nx]], [Parameter(s, value=rng.uniform(1, 2), fixed=rng.random() < .3) for s in names[nx:]]


def formula(rng, syms):
    e = sp.Integer(0)
    for i, s in enumerate(syms):
        o = rng.choice(syms)
        e = e + rng.choice([i + 2, rng.uniform(.5, 3)]) * s ** rng.choice([1, 2]) * rng.choice([1, o, sp.exp(-o / 3), sp.cos(o)])
    return e + rng.choice([0, 1, sp.sin(syms[0])])


@check('C21', n=24)
def calling(rng):
    """Calls by position, by name and mixed, with names that do not occur, against an independent evaluation."""
    xs, ps = symbols(rng, rng.randint(0, 3), rng.randint(0, 3))
    if not xs + ps: raise Skip('no symbols')
    e = formula(rng, xs + ps)
    order = sorted((s for s in xs if s in e.free_symbols), key=lambda s: s.name) + sorted((s for s in ps if s in e.free_symbols), key=lambda s: s.name)
    if not order: raise Skip('nothing left')
    m = rng.randint(2, 5)
    env = {s.name: np.array([rng.uniform(.5, 2) for _ in range(m)]) if s in xs and rng.random() < .6 else rng.uniform(.5, 2) for s in order}
    want = npeval(e, env)
    style = rng.randrange(5)
    values = [env[s.name] for s in order]
    k = rng.randint(0, len(order))
    if style == 0: got = e(*values)
    elif style == 1: got = e(**env)
    elif style == 2: got = e(*values[:k], **{s.name: env[s.name] for s in order[k:]})
    elif style == 3:
        names = list(env.items()) + [('nothing', 3.0), ('q7', np.ones(3))]
        rng.shuffle(names)
        got = e(**dict(names))
    else:
        got = e(*values[:k], zz=None, **{s.name: env[s.name] for s in order[k:][::-1]})
    close(np.broadcast_to(got, np.shape(want)), want, 1e-9, f'{e} at {env}')
    for bad in (lambda: e(*values, 1.0), lambda: e(*values[:-1]), lambda: e(*values, **{order[0].name: 1.0})):
        try: bad()
        except TypeError: pass
        else: raise AssertionError(f'{e}: a call with a value missing or too many was accepted')
    return f'{e}, style {style}'


@check('C21', n=10)
def same_text(rng):
    """Expressions that print alike, one after another: their symbols keep their own roles."""
    from symfit import Parameter, Variable
    names = sorted(rng.sample(ODD, 3))
    env = {s: rng.uniform(.5, 2) for s in names}
    for r in range(3):
        roles = [rng.random() < .5 for _ in names]
        syms = [Parameter(s) if f else Variable(s) for s, f in zip(names, roles)]
        e = syms[0] ** 2 * syms[1] - syms[2]
        order = [s for s in syms if isinstance(s, Variable)] + [s for s in syms if isinstance(s, Parameter)]
        close(e(*[env[s.name] for s in order]), env[names[0]] ** 2 * env[names[1]] - env[names[2]], 1e-9, f'{e} with parameters {[s.name for s in syms if isinstance(s, Parameter)]}')
    return str(names)


@check('C21', n=8)
def symbols_alone(rng):
    """Parameters and variables are expressions too; results of fits are called with all parameters."""
    from symfit import Parameter, Variable
    p, x = Parameter('p', value=rng.uniform(1, 2)), Variable('x')
    v = rng.uniform(-3, 3)
    assert p(v) == v and p(p=v) == v and p(x=1.0, p=v) == v
    assert x(v) == v and x(x=v, p=3) == v
    y = np.array([v, 2 * v])
    close((p * x)(x=y, p=2.0, q=1), 2 * y, 1e-12)
    close((x - p)(y, 2.0), y - 2, 1e-12)
    return f'{v}'


def matrices(rng, names, n, m):
    from symfit import Parameter
    return {s: (sp.MatrixSymbol(s, n, m), np.array([[rng.uniform(.5, 1.5) for _ in range(m)] for _ in range(n)])) for s in names}


@check('C21', n=30)
def matrix_expressions(rng):
    """Element-wise products and powers, inverses and powers of matrix expressions, with any operands."""
    from symfit import Parameter
    from symfit.core.support import sympy_to_py
    n = rng.choice([1, 2, 2, 3])
    S = matrices(rng, 'ABC', n, n)
    k = Parameter('k')
    kv = rng.choice([2.0, 3.0])
    env = {s: v for s, (_, v) in S.items()}
    def leaf():
        s = rng.choice('ABC'); return S[s]
    def expr(d):
        if d == 0: return leaf()
        kind = rng.randrange(9)
        a, u = expr(d - 1)
        b, v = expr(rng.randrange(d))
        if kind == 0: return sp.MatAdd(a, b), u + v
        if kind == 1: return sp.HadamardProduct(a, b), u * v
        if kind == 2:
            c, w = leaf(); return sp.HadamardProduct(a, b, c), u * v * w
        if kind == 3: return sp.HadamardPower(a, 2), u ** 2
        if kind == 4: return sp.HadamardPower(a, k), u ** kv
        if kind == 5: return sp.MatMul(a, b), u @ v
        if kind == 6: return sp.MatMul(-1, a), -u
        if kind == 7: return sp.MatMul(k, a), kv * u
        c, w = leaf(); return sp.HadamardProduct(sp.MatAdd(a, b), c), (u + v) * w
    top = rng.randrange(7)
    a, u = expr(rng.choice([1, 1, 2]))
    b, v = expr(1)
    c, w = leaf()
    if top == 0: e, want = sp.HadamardProduct(a, b), u * v
    elif top == 1: e, want = sp.HadamardPower(a, rng.choice([2, 3])), None
    elif top == 2: e, want = sp.HadamardProduct(c, a, b), w * u * v
    elif top == 3: e, want = sp.HadamardPower(a, k + 1), u ** (kv + 1)
    elif top == 4: e, want = sp.Inverse(sp.MatAdd(c, sp.MatMul(7, sp.Identity(n)))), np.linalg.inv(w + 7 * np.eye(n))
    elif top == 5: e, want = sp.MatAdd(c, sp.HadamardProduct(a, b)), w + u * v
    else: e, want = sp.MatPow(c, rng.choice([2, 3])), None
    if top == 1: want = u ** int(e.args[1])
    if top == 6: want = np.linalg.matrix_power(w, int(e.args[1]))
    syms = sorted(e.free_symbols, key=lambda s: s.name)
    args = [s for s in syms if s is not k] + [s for s in syms if s is k]
    f = sympy_to_py(e, args)
    vals = {s.name: kv if s is k else env[s.name] for s in args}
    scale = max(1.0, float(np.max(np.abs(want))))
    close(f(**vals) / scale, want / scale, 1e-8, f'{e}')
    close(f(*[vals[s.name] for s in args]) / scale, want / scale, 1e-8, f'{e} by position')
    from symfit import CallableModel, Variable
    if rng.random() < .3:
        y = sp.MatrixSymbol('Yout', n, n)
        got = CallableModel({y: e})(**vals)
        close(np.asarray(got[0]) / scale, want / scale, 1e-8, f'model {e}')
    return str(e)


@check('C21', n=10)
def matrix_scalars(rng):
    """Powers of 1x1 products, indexed expressions."""
    from symfit import Parameter
    k = Parameter('k')
    n = rng.randint(2, 3)
    v, M = sp.MatrixSymbol('v', n, 1), sp.MatrixSymbol('M', n, n)
    vv = np.array([[rng.uniform(.5, 1)] for _ in range(n)]); mm = np.array([[rng.uniform(.5, 1) for _ in range(n)] for _ in range(n)])
    p, q = rng.choice([(2, 2), (3, 3), (-1, -1), (k, 2.0), (k + 1, 3.0), (sp.Rational(1, 2), .5)])
    base, val = rng.choice([(v.T * v, vv.T @ vv), (v.T * M * v, vv.T @ mm @ vv), (v.T * v + v.T * M * v, vv.T @ vv + vv.T @ mm @ vv)])
    e = sp.MatPow(base, p)
    got = e(**dict(v=vv, M=mm, k=2.0))
    close(got, val ** q, 1e-8, str(e))
    return str(e)


@check('C21', n=12)
def indexed(rng):
    """Sums over an index."""
    from symfit import Parameter
    from symfit.core.support import sympy_to_py
    x, y, a = sp.IndexedBase('x'), sp.IndexedBase('y'), Parameter('a')
    n = rng.randint(2, 5)
    i = sp.Idx('i', n)
    dx, dy = (np.array([rng.uniform(0, 2) for _ in range(n)]) for _ in 'xy')
    e = sp.Sum((a * x[i] - y[i]) ** 2, i)
    f = sympy_to_py(e, [x, y, a])
    av = rng.uniform(0, 2)
    close(f(x=dx, y=dy, a=av), np.sum((av * dx - dy) ** 2), 1e-9, str(e))
    return str(e)


@check('C21', n=16)
def compiled_names(rng):
    """sympy_to_py: a function of exactly the symbols listed, in that order, by their own names."""
    import inspect
    from symfit import Parameter, Variable
    from symfit.core.support import sympy_to_py
    xs, ps = symbols(rng, rng.randint(1, 2), rng.randint(1, 2))
    syms = xs + ps
    rng.shuffle(syms)
    unused = Parameter('unused')
    e = formula(rng, syms)
    args = syms + ([unused] if rng.random() < .5 else [])
    f = sympy_to_py(e, args)
    assert list(inspect.signature(f).parameters) == [s.name for s in args], f'{list(inspect.signature(f).parameters)} for {args}'
    env = {s.name: rng.uniform(.5, 2) for s in args}
    want = npeval(e, env)
    close(f(**env), want, 1e-9, f'{e} by name'); close(f(*[env[s.name] for s in args]), want, 1e-9, f'{e} by position')
    k = rng.randint(0, len(args))
    close(f(*[env[s.name] for s in args[:k]], **{s.name: env[s.name] for s in args[k:]}), want, 1e-9, f'{e} mixed')
    return f'{e} of {args}'


@check('C21', n=12)
def separation(rng):
    """seperate_symbols: variables and parameters, each once, in alphabetical order; derivatives to parameters count as variables."""
    from symfit import Parameter, Variable
    from symfit.core.support import seperate_symbols
    xs, ps = symbols(rng, rng.randint(0, 4), rng.randint(0, 4))
    if not xs + ps: raise Skip('no symbols')
    e = formula(rng, xs + ps)
    v, p = seperate_symbols(e)
    assert list(v) == sorted(set(xs) & e.free_symbols, key=lambda s: s.name), f'{v} of {e}'
    assert list(p) == sorted(set(ps) & e.free_symbols, key=lambda s: s.name), f'{p} of {e}'
    if xs and ps:
        d = sp.Derivative(xs[0], ps[0])
        v, p = seperate_symbols(e + xs[0] + ps[0] + 3 * d)
        assert d in v and xs[0] in v and d not in p and ps[0] in p, f'{v}, {p}'
        assert [s.name for s in v] == sorted(s.name for s in v), v
    if xs and len(ps) > 1:
        for d in (sp.Derivative(xs[0], ps[0], ps[1]), sp.Derivative(xs[0], (ps[0], 2))):
            v, p = seperate_symbols(xs[0] + ps[0] + ps[1] + d)
            assert d in v and ps[1] in p, f'{v}, {p} of {d}'
    return str(e)


@check('C21', n=10)
def densities(rng):
    """Gaussian, BivariateGaussian and Exp against the densities of scipy.stats."""
    from scipy import stats
    from symfit import Parameter, Variable
    from symfit.distributions import Gaussian, BivariateGaussian, Exp
    x, y = Variable('x'), Variable('y')
    mu, nu, s, t, rho, l = (Parameter(n) for n in ('mu', 'nu', 's', 't', 'rho', 'l'))
    X, Y = np.array([rng.uniform(-3, 3) for _ in range(5)]), np.array([rng.uniform(-3, 3) for _ in range(5)])
    m, n_, sv, tv, r = rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(.3, 2), rng.uniform(.3, 2), rng.uniform(-.9, .9)
    close(Gaussian(x, mu, s)(x=X, mu=m, s=sv), stats.norm.pdf(X, m, sv), 1e-9, 'Gaussian')
    close(Gaussian(x, mu, s)(x=X, mu=m, s=-sv), stats.norm.pdf(X, m, sv), 1e-9, 'Gaussian of -sigma')
    close(Exp(x, l)(x=np.abs(X), l=sv), stats.expon.pdf(np.abs(X), scale=1 / sv), 1e-9, 'Exp')
    got = BivariateGaussian(x, y, mu_x=mu, mu_y=nu, sig_x=s, sig_y=t, rho=rho)(x=X, y=Y, mu=m, nu=n_, s=sv, t=tv, rho=r)
    close(got, stats.multivariate_normal.pdf(np.stack([X, Y], axis=-1), [m, n_], [[sv ** 2, r * sv * tv], [r * sv * tv, tv ** 2]]), 1e-9, 'BivariateGaussian')
    return f'{m}, {sv}, {r}'
