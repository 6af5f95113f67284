"""C03: objectives evaluated with a recording model."""
import numpy as np
from native.base import check, close, Skip
from native.util import mkparams, describe, data_array


def recording_model(rng, ps, ivs, dvs, shapes, log, inter=()):
    """A model with call, Jacobian and Hessian that record the point and return given arrays."""
    from symfit.core.models import BaseGradientModel, CallableNumericalModel, ModelOutput
    class Rec(BaseGradientModel, CallableNumericalModel):
        def eval_jacobian(self, *a, **k):
            vals = self.__signature__.bind(*a, **k).arguments
            log.append(('jac', dict(vals)))
            return ModelOutput(self.keys(), [JV[v.name] for v in self])
        def eval_hessian(self, *a, **k):
            vals = self.__signature__.bind(*a, **k).arguments
            log.append(('hess', dict(vals)))
            return ModelOutput(self.keys(), [HV[v.name] for v in self])
        def eval_components(self, *a, **k):
            vals = self.__signature__.bind(*a, **k).arguments
            log.append(('call', dict(vals)))
            return [FV[v.name] for v in self]
    n = len(ps)
    order = np.asfortranarray if rng.random() < .2 else np.asarray
    FV, JV, HV = {}, {}, {}
    comps = list(dvs) + list(inter)
    for v in comps:
        s = shapes[v.name]
        FV[v.name] = order(data_array(rng, s, scales=True)); JV[v.name] = data_array(rng, (n,) + s); HV[v.name] = data_array(rng, (n, n) + s)
    conn = {v: set(ps) | set(ivs) for v in inter}
    conn.update({v: set(ps) | set(ivs) | set(inter) for v in dvs})
    model = Rec({v: (lambda **k: None) for v in comps}, connectivity_mapping=conn)
    return model, FV, JV, HV


def expose():
    """Minimal concrete objective: the base class evaluation, nothing else."""
    from symfit.core.objectives import HessianObjective
    class Plain(HessianObjective):
        def __call__(self, ordered_parameters=[], **p): return super().__call__(ordered_parameters, **p)
        def eval_jacobian(self, ordered_parameters=[], **p): return super().eval_jacobian(ordered_parameters, **p)
        def eval_hessian(self, ordered_parameters=[], **p): return super().eval_hessian(ordered_parameters, **p)
    return Plain


def varnames(rng, pool, k):
    from symfit import Variable
    return [Variable(x) for x in sorted(rng.sample(pool, k))]


@check('C03', n=60)
def point_and_shape(rng):
    """The point at which the model is evaluated, and the components returned."""
    n = rng.randint(1, 5)
    ps = mkparams(rng, n, p_fixed=rng.choice([0, 0.4, 0.7]), wide=True)
    ivs = varnames(rng, ['t', 'u', 'x'], rng.randint(0, 2))
    dvs = varnames(rng, ['m', 'q', 'y', 'z'], rng.randint(1, 3))
    inter = varnames(rng, ['k', 'p0', 'w', 'zz'], rng.randint(0, 2))
    dshape = {v.name: rng.choice([(4,), (3,), (2, 3), (1,), (n, 1)]) for v in dvs}
    # components of the shape of the data, of its leading axes, or scalar
    shapes = {v.name: rng.choice([dshape[v.name]] * 3 + [(1,), dshape[v.name][:1]]) for v in dvs}
    shapes.update({v.name: (2,) for v in inter})
    log = []
    model, FV, JV, HV = recording_model(rng, ps, ivs, dvs, shapes, log, inter)
    assert [v.name for v in model.dependent_vars] == [v.name for v in dvs]
    data = {v: data_array(rng, (4,)) for v in ivs}
    for v in dvs:
        data[v] = None if rng.random() < 0.25 else data_array(rng, dshape[v.name])
        data[model.sigmas[v]] = None if data[v] is None else np.ones(dshape[v.name])
    obj = expose()(model, data)
    free = [p for p in model.params if not p.fixed]
    log.clear()
    for rep in range(2):
        vals = [rng.uniform(-2, 2) for _ in free]
        want = {p.name: p.value for p in ps}
        want.update({p.name: v for p, v in zip(free, vals)})
        want.update({v.name: data[v] for v in ivs})
        style = rng.choice(['list', 'array', 'named', 'mixed', 'all named'])
        if style == 'named': a, k = (), {p.name: v for p, v in zip(free, vals)}
        # fixed parameters may be named too, they stay at their fixed value
        elif style == 'all named': a, k = (), {**{p.name: p.value + 1 for p in ps if p.fixed}, **{p.name: v for p, v in zip(free, vals)}}
        elif style == 'mixed':
            cut = rng.randint(0, len(free)); a = (vals[:cut],); k = {p.name: v for p, v in zip(free[cut:], vals[cut:])}
        else: a, k = ((np.array(vals) if style == 'array' else vals),), {}
        for kind, fn, src, lev in (('call', obj.__call__, FV, 0), ('jac', obj.eval_jacobian, JV, 1), ('hess', obj.eval_hessian, HV, 2)):
            log.clear()
            got = fn(*a, **k)
            pts = [e[1] for e in log if e[0] == kind]
            assert len(pts) == 1, log
            # named values may be given as Parameter-named keyword; compare by name
            assert set(pts[0]) == set(want), (set(pts[0]), set(want))
            for nm in want:
                assert np.array_equal(pts[0][nm], want[nm]), f'{kind} ({style}): {nm} evaluated at {pts[0][nm]!r}, requested {want[nm]!r}'
            assert len(got) == len(dvs)
            for v, comp in zip(dvs, got):
                full = src[v.name]
                if data[v] is not None:
                    own = full.shape[lev:]
                    full = np.broadcast_to(full.reshape((n,) * lev + own + (1,) * (len(dshape[v.name]) - len(own))), (n,) * lev + dshape[v.name])
                close(comp, full, 0, f'{kind}: component {v}')
    return f'{describe(ps)} ivs={ivs} dvs={dvs} inter={inter} {dshape}'
