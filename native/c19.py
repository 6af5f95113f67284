"""C19: cached_property and key2str under random operation histories."""
import collections, pickle
from native.base import check, close, Skip


class Boom(Exception): pass


QS = ('one', 'two', '_one', 'one_', 'One')


def make():
    from symfit.core.support import cached_property
    class T:
        def __init__(self): self.n = dict.fromkeys(QS, 0); self.fail = set(); self.state = 0; self.none = False; self.exc = Boom; self.plain = None
        def _do(self, k):
            self.n[k] += 1
            if k in self.fail: raise self.exc()
            return self.plain if self.none else (k, self.state, self.n[k])
        @cached_property
        def one(self): return self._do('one')
        @cached_property
        def two(self): return self._do('two')
        # names that differ in little
        @cached_property
        def _one(self): return self._do('_one')
        @cached_property
        def one_(self): return self._do('one_')
        @cached_property
        def One(self): return self._do('One')
    return T


@check('C19', n=80)
def histories(rng):
    T = make()
    class U(T): pass
    objs = [rng.choice([T, U])() for _ in range(rng.randint(1, 3))]
    cached = [dict() for _ in objs]; count = [collections.Counter() for _ in objs]
    ops = []
    for _ in range(rng.randint(5, 25)):
        i = rng.randrange(len(objs)); k = rng.choice(QS[:rng.choice([2, 5])]); o = objs[i]
        op = rng.choice(['get', 'get', 'get', 'del', 'mutate', 'fail', 'ok', 'set', 'none', 'kind'])
        ops.append((op, i, k))
        if op == 'get':
            if k in cached[i]:
                v = getattr(o, k); assert v is cached[i][k], (ops, v, cached[i][k])
            elif k in o.fail:
                count[i][k] += 1
                try: getattr(o, k)
                except o.exc: pass
                else: raise AssertionError(f'error swallowed: {ops}')
            else:
                count[i][k] += 1
                v = getattr(o, k); assert v == (o.plain if o.none else (k, o.state, o.n[k])), (ops, v); cached[i][k] = v
        elif op == 'del':
            delattr(o, k); cached[i].pop(k, None)
        elif op == 'mutate': o.state += 1
        elif op == 'fail': o.fail.add(k)
        elif op == 'ok': o.fail.discard(k)
        elif op == 'none': o.none = not o.none
        elif op == 'kind':
            o.exc = rng.choice([Boom, KeyError, AttributeError, TypeError, ValueError, IndexError, StopIteration, RuntimeError, NotImplementedError, ZeroDivisionError])
            o.plain = rng.choice([None, (), [], {}, 0, 0.0, '', False, frozenset(), float('inf')])
        elif op == 'set':
            try: setattr(o, k, 5)
            except AttributeError: pass
            else: raise AssertionError('cached property can be set')
        for j, ob in enumerate(objs):
            assert ob.n == {q: count[j][q] for q in QS}, f'computed {ob.n}, expected {dict(count[j])} after {ops}'
    return str(ops)


@check('C19', n=20)
def pickled_models(rng):
    """After a pickle round trip cached quantities are computed afresh and equal."""
    from symfit import Model, variables, Parameter
    import sympy as sp
    a = Parameter('a', value=2.0); x, y, z = variables('x, y, z')
    k = rng.randint(1, 5)
    m = Model({y: a * x ** k, z: y + a})
    which = rng.sample(['vars', 'jacobian', 'connectivity_mapping', 'numerical_components', 'function_dict', 'vars_as_functions'], 4)
    vals = {w: getattr(m, w) for w in which}
    for w in which: assert getattr(m, w) is vals[w], w
    n = pickle.loads(pickle.dumps(m))
    from symfit.core.support import cached_property
    assert not [q for q in vars(n) if q.startswith(cached_property.base_str)], 'caches restored from the pickle'
    for w in which:
        if w != 'numerical_components': assert getattr(n, w) == vals[w], w
        assert getattr(m, w) is vals[w]
    del m.vars; v2 = m.vars; assert v2 == n.vars
    if 'vars' in which: assert v2 is not vals['vars']
    return str(which)


@check('C19', n=30)
def names(rng):
    from symfit.core.support import key2str
    from symfit import Variable, Parameter
    import sympy as sp
    syms = [rng.choice([Variable, Parameter])(f'k{i}') for i in rng.sample(range(20), rng.randint(0, 8))]
    vals = [object() for _ in syms]
    keys = [s if rng.random() < .8 else s.name for s in syms]
    cls = rng.choice([dict, collections.OrderedDict])
    d = cls(zip(keys, vals)); keep = list(d.items())
    out = key2str(d)
    assert type(out) is cls and list(out) == [s.name for s in syms] and all(o is v for o, v in zip(out.values(), vals))
    assert all(isinstance(q, str) for q in out) and list(d.items()) == keep and out is not d
    return f'{cls.__name__} {[str(s) for s in syms]}'
