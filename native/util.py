"""Shared generators and oracles for the run-time checks (independent of the code under test)."""
import math
import numpy as np
import sympy

NAMES = 'abcdefgh'
ODD = sorted(['A1', 'Bb', 'a', 'a1', 'a10', 'a2', 'a_', 'b', 'c_1', 'par', 'p10', 'p9', 'D_0'])


def mkparams(rng, n, p_fixed=0.3, p_bound=0.3, free=1, prefix=None, wide=False, odd=False):
    """n parameters with alphabetical names, random value/bounds/fixed; at least `free` free ones.
    wide: also zero, negative, tiny and large values, bounds of exactly 0, and fixed parameters outside their bounds."""
    from symfit import Parameter
    fixed = [rng.random() < p_fixed for _ in range(n)]
    while sum(not f for f in fixed) < min(free, n): fixed[rng.randrange(n)] = False
    names = NAMES
    if not prefix and rng.random() < 0.3: names = sorted(rng.sample(ODD, n))
    out = []
    for i in range(n):
        v = round(rng.uniform(0.5, 3.0), 3)
        lo = round(v - rng.uniform(0.2, 2), 3) if rng.random() < p_bound else None
        hi = round(v + rng.uniform(0.2, 2), 3) if rng.random() < p_bound else None
        if wide and rng.random() < 0.5:
            kind = rng.randrange(4)
            if kind == 0: v = -v; lo, hi = (None if lo is None else v - 1.0), (None if hi is None else 0.0)
            elif kind == 1: lo, hi = (None if lo is None else 0.0), (None if hi is None else v + 0.5)
            elif kind == 2: v, lo, hi = 0.0, (None if lo is None else rng.choice([0.0, -1.0])), (None if hi is None else rng.choice([0.0, 1.5]) if lo is None else 1.5)
            elif kind == 3 and p_bound: lo, hi = rng.choice([(0, None), (None, 10), (0, 10), (-1, None)])
        if wide and fixed[i] and rng.random() < 0.6:
            v = rng.choice([0.0, -2.5, 1e-9, 0.7, 40.0])
            lo, hi = rng.choice([(1.0, 3.0), (None, -4.0), (50.0, None), (3.0, 1.0), (None, None), (0.0, 0.0)])
        elif odd and rng.random() < 0.15:
            # starting outside the bounds, or with bounds that leave one value
            lo, hi = rng.choice([(v + 0.5, None), (None, v - 0.5), (v, v), (v + 0.25, v + 0.25)])
        out.append(Parameter((prefix or '') + names[i], value=v, min=lo, max=hi, fixed=fixed[i]))
    return out


def describe(params):
    return ', '.join(f'{p.name}={p.value}{"!" if p.fixed else ""}[{p.min},{p.max}]' for p in params)


def npeval(expr, env):
    """Value of a sympy expression at name->value (numbers or arrays), without lambdify or symfit."""
    import sympy as sp
    if isinstance(expr, (int, float)): return expr
    if expr.is_Symbol: return env[expr.name]
    if expr.is_Number or expr.is_NumberSymbol: return float(expr)
    a = [npeval(x, env) for x in expr.args]
    f = expr.func
    if f is sp.Add:
        r = 0.0
        for x in a: r = r + x
        return r
    if f is sp.Mul:
        r = 1.0
        for x in a: r = r * x
        return r
    if f is sp.Pow: return np.power(np.asarray(a[0], dtype=float), a[1])
    table = {sp.exp: np.exp, sp.sin: np.sin, sp.cos: np.cos, sp.log: np.log, sp.tanh: np.tanh, sp.atan: np.arctan}
    if f in table: return table[f](a[0])
    raise NotImplementedError(f)


def sgn_expr(rng, xs, ps, terms=2):
    """A smooth random expression in the symbols xs (variables/other components) and ps (parameters)."""
    import sympy as sp
    e = sp.Integer(0)
    for _ in range(terms):
        p = rng.choice(ps) if ps else sp.Integer(2)
        q = rng.choice(ps) if ps else sp.Integer(3)
        x = rng.choice(xs) if xs else sp.Integer(1)
        e += rng.choice([p * x, p * x ** 2, p ** 2 * x, sp.sin(p) * x, p * sp.exp(-q * x / 5), p * q * x, p * sp.cos(x * q / 3), x + p, p ** 3 / 5, q * sp.tanh(p * x / 4)])
    return e


def data_array(rng, shape, lo=0.3, hi=3.0, scales=False):
    n = int(np.prod(shape)) if shape else 1
    out = np.array([rng.uniform(lo, hi) for _ in range(n)])
    if scales and n and rng.random() < 0.35: out[rng.randrange(n)] *= 10.0 ** rng.choice([-6, -5, -4, 3])
    return out.reshape(shape)


def dep_array(rng, shape):
    """Data of a dependent variable: any sign, sometimes exactly zero in one or all places."""
    a = data_array(rng, shape, scales=True)
    if rng.random() < 0.3: a = a * np.array([rng.choice([-1, 1]) for _ in range(a.size)]).reshape(shape)
    if a.size and rng.random() < 0.15: a.flat[rng.randrange(a.size)] = 0.0
    if rng.random() < 0.1: a = np.zeros(shape)
    if a.ndim > 1 and rng.random() < 0.3: a = np.asfortranarray(a)
    return a


def numgrad(f, x, h=1e-3):
    """8th order central differences of a (vector valued) function: oracle for derivatives."""
    x = np.asarray(x, dtype=float)
    cs = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
    cols = []
    for i in range(len(x)):
        d = 0
        for k, c in enumerate(cs, 1):
            e = np.zeros_like(x); e[i] = k * h
            d = d + c * (np.asarray(f(x + e)) - np.asarray(f(x - e))) / h
        cols.append(d)
    return np.array(cols)
