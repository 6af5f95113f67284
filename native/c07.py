"""C07: data binding of TakesData and Fit."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, data_array
from native.c03 import varnames


def problem(rng, kmax=3):
    from symfit import Model
    ivs = varnames(rng, ['r', 't', 'u', 'x', 'X'], rng.randint(0, kmax))
    dvs = varnames(rng, ['m', 'q', 'y', 'Z', 'z'], rng.randint(1, kmax))
    n = rng.randint(max(1, len(dvs)), 4)
    ps = mkparams(rng, n, p_fixed=0)
    from sympy import Integer
    model = Model({v: ps[i % n] * sum([x ** (i + 1) for x in ivs], Integer(1)) + sum(ps, Integer(0)) for i, v in enumerate(dvs)})
    return model, sorted(ivs, key=lambda v: v.name), sorted(dvs, key=lambda v: v.name), ps


@check('C07', n=120)
def binding(rng):
    from symfit import Fit
    from symfit.core.fit import TakesData
    model, ivs, dvs, ps = problem(rng)
    shapes = {v: rng.choice([(4,), (3,), (2, 2)]) for v in dvs}
    order, vals = [], {}
    for v in ivs: order.append(v.name); vals[v.name] = data_array(rng, (4,))
    for v in dvs: order.append(v.name); vals[v.name] = None if rng.random() < 0.2 else data_array(rng, shapes[v])
    explicit_none = rng.random() < 0.5
    for v in dvs:
        order.append('sigma_' + v.name)
        kind = rng.choice(['none', 'none', 'scalar', 'int', 'zero-d', 'array', 'list'])
        vals['sigma_' + v.name] = {'none': None, 'scalar': rng.uniform(0.1, 2), 'int': rng.randint(1, 5), 'zero-d': np.array(1.5),
                                   'array': data_array(rng, shapes[v]), 'list': data_array(rng, shapes[v]).tolist()}[kind]
        if vals[v.name] is None: vals['sigma_' + v.name] = None
    for k in order:
        if isinstance(vals[k], np.ndarray) and vals[k].ndim and not k.startswith('sigma_') and rng.random() < 0.2: vals[k] = np.round(vals[k]).astype(int)
        if isinstance(vals[k], np.ndarray) and vals[k].ndim and rng.random() < 0.3: vals[k] = vals[k].tolist()
    for k in order:     # values that happen to be all zero (data) or all one (sigmas)
        if isinstance(vals[k], (np.ndarray, list)) and np.ndim(vals[k]) and rng.random() < 0.15: vals[k] = type(vals[k])(np.full(np.shape(vals[k]), 1. * k.startswith('sigma_')).tolist()) if isinstance(vals[k], list) else np.full(np.shape(vals[k]), 1. * k.startswith('sigma_'))
    given = dict(vals)
    cut = rng.randint(0, len(order))
    args = [vals[k] for k in order[:cut]]
    rest = order[cut:]; rng.shuffle(rest)
    kw = {}
    for k in rest:
        if k.startswith('sigma_') and vals[k] is None and not explicit_none: continue
        kw[k] = vals[k]
    absolute = rng.choice([None, None, True, False])
    cls = rng.choice([TakesData, Fit])
    if cls is Fit and len(dvs) == 1 and not ivs: cls = TakesData
    ak = {} if absolute is None else dict(absolute_sigma=absolute)
    fit = cls(model, *args, **kw, **ak)
    assert list(fit.independent_data) == ivs and list(fit.dependent_data) == dvs, (list(fit.independent_data), list(fit.dependent_data))
    assert [s.name for s in fit.sigma_data] == ['sigma_' + v.name for v in dvs]
    for v in ivs: close(fit.independent_data[v], given[v.name], 0, v.name)
    anysig = False
    for v in dvs:
        d, s = given[v.name], given['sigma_' + v.name]
        got = fit.sigma_data[model.sigmas[v]]
        if s is not None: anysig = True
        if d is None:
            assert fit.dependent_data[v] is None and got is None, (v, fit.dependent_data[v], got); continue
        close(fit.dependent_data[v], d, 0, v.name)
        close(got, np.ones(np.shape(d)) * (1.0 if s is None else s), 0, 'sigma of ' + v.name)
    assert fit.absolute_sigma is (absolute if absolute is not None else anysig), (absolute, anysig, fit.absolute_sigma)
    return f'{cls.__name__} ivs={ivs} dvs={dvs} positional={cut} none={[k for k in order if given[k] is None]} absolute={absolute}'


@check('C07', n=40)
def refused(rng):
    """Missing required data and unknown data are refused."""
    from symfit import Fit
    from symfit.core.fit import TakesData
    model, ivs, dvs, ps = problem(rng)
    kw = {v.name: data_array(rng, (4,)) for v in ivs + dvs}
    how = rng.choice(['missing', 'unknown', 'too many', 'twice'])
    args = []
    if how == 'missing': kw.pop(rng.choice(sorted(kw)))
    elif how == 'unknown': kw[rng.choice(['nope', 'sigma_nope', ps[0].name])] = data_array(rng, (4,))
    elif how == 'too many': args = [data_array(rng, (4,))] * (len(ivs) + 2 * len(dvs) + 1); kw = {}
    else:
        first = (ivs + dvs)[0]; args = [data_array(rng, (4,))]
    # a scalar model without independent variables and data is model minimization for Fit
    cls = TakesData if (len(dvs) == 1 and not ivs) else rng.choice([TakesData, Fit])
    try: cls(model, *args, **kw)
    except TypeError: return f'{cls.__name__} {how} {ivs} {dvs}'
    raise AssertionError(f'{how} data accepted: {sorted(kw)} for ivs={ivs} dvs={dvs}')
