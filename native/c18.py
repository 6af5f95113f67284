"""C18: creation and comparison of parameters."""
import itertools, warnings
from native.base import check, close, Skip, Finding


def drop(names):
    """Names are cached by sympy within one process; use fresh ones where identity matters."""


_uid = itertools.count()


def fresh(rng, stem='n'):
    return f'{stem}{rng.case}_{next(_uid)}_{rng.randrange(10**9)}'


@check('C18', n=80)
def creation(rng):
    from symfit import Parameter
    name = fresh(rng)
    v = rng.choice([rng.uniform(-5, 5), 0, -1, 2, None])
    lo, hi = rng.choice([None, 0, 1.5, -2]), rng.choice([None, 0, 1.5, 4])
    fixed = rng.random() < .4
    kw = {}
    if v is not None: kw['value'] = v
    if lo is not None: kw['min'] = lo
    if hi is not None: kw['max'] = hi
    if fixed or rng.random() < .3: kw['fixed'] = fixed
    bad = lo is not None and hi is not None and lo > hi
    try: p = Parameter(name, **kw)
    except ValueError:
        assert bad and not fixed, f'{kw} refused'
        return f'refused {kw}'
    assert not bad or fixed, f'{kw} accepted'
    assert (p.name, p.value, p.min, p.max, p.fixed) == (name, 1.0 if v is None else v, lo, hi, fixed), (p.value, p.min, p.max, p.fixed, kw)
    assert p == p and hash(p) == hash(p)
    return f'{kw}'


@check('C18', n=100)
def several(rng):
    from symfit import parameters
    n = rng.randint(1, 6)
    names = [fresh(rng, 'q') for _ in range(n)]
    kw, want, wrong = {}, {}, False
    for attr, default in (('value', 1.0), ('min', None), ('max', None), ('fixed', False)):
        how = rng.choice(['none', 'scalar', 'list', 'tuple', 'iter', 'wrong' if rng.random() < .2 else 'list'])
        pick = {'value': lambda: rng.uniform(-3, 3), 'min': lambda: rng.choice([-2, -1.0, 0, 1]), 'max': lambda: rng.choice([0, 1, 2.0, 3]), 'fixed': lambda: rng.random() < .5}[attr]
        if how == 'none': want[attr] = [default] * n
        elif how == 'scalar': s = pick(); kw[attr] = s; want[attr] = [s] * n
        elif how == 'wrong': kw[attr] = [pick() for _ in range(n + rng.choice([-1, 1, 2]))]; wrong = True; want[attr] = None
        else:
            s = [pick() for _ in range(n)]; want[attr] = s
            kw[attr] = {'list': list(s), 'tuple': tuple(s), 'iter': iter(list(s))}[how]
    if not wrong:
        bad = [i for i in range(n) if want['min'][i] is not None and want['max'][i] is not None and want['min'][i] > want['max'][i]]
        seq = any(not isinstance(kw.get(k), (int, float, type(None))) for k in ('min', 'max'))
        # with both bounds scalar the constructor decides, and lets fixed parameters pass
        if bad and not seq and kw.get('fixed') is True: bad = []
        if bad and not seq and not isinstance(kw.get('fixed', False), bool): bad = [0]
    desc = f'{n} {({k: (v if not hasattr(v, "__next__") else "iterator") for k, v in kw.items()})}'
    try: ps = parameters(', '.join(names), **kw)
    except ValueError:
        assert wrong or bad, 'refused ' + desc
        return 'refused ' + desc
    assert not wrong and not bad, 'accepted ' + desc
    assert len(ps) == n
    for i, p in enumerate(ps):
        got = (p.name, p.value, p.min, p.max, p.fixed)
        assert got == (names[i],) + tuple(want[a][i] for a in ('value', 'min', 'max', 'fixed')), (i, got, want)
    return desc


@check('C18', n=60)
def equality(rng):
    """Two parameters are equal exactly if all of name, bounds, flag and value are."""
    import pickle
    from symfit import Parameter, Variable
    from symfit.core.argument import Argument
    base = dict(value=1.0, min=-1.0, max=5.0, fixed=rng.random() < .4)
    name = fresh(rng, 'e')
    # two objects with the same name can only exist when sympy's symbol cache is circumvented
    from sympy.core.cache import clear_cache
    a = Parameter(name, **base)
    other = dict(base); k = rng.choice(['value', 'min', 'max', 'fixed', 'name', 'none'])
    if k in ('value', 'min', 'max'): other[k] = base[k] + rng.choice([.5, -.5])
    if k == 'fixed': other[k] = not base[k]
    clear_cache()
    b = Parameter(name if k != 'name' else name + 'x', **other)
    if a is b: raise Skip('cached')
    assert (a == b) is (k == 'none'), (k, a == b)
    assert (b == a) is (k == 'none') and (a != b) is (k != 'none')
    assert not (a == Variable(name)) and a != 3 and not (a == None)
    if k == 'none': assert hash(a) == hash(b)
    return k


@check('C18', n=20)
def generated_names(rng):
    from symfit import Parameter, Variable
    warnings.simplefilter('ignore')
    names = set()
    for i in range(rng.randint(2, 12)):
        if rng.random() < .3: Parameter(fresh(rng)); continue
        p = rng.choice([Parameter, Variable])()
        assert p.name not in names, p.name
        names.add(p.name)
    q = Parameter(value=2.5, min=0); assert q.value == 2.5 and q.min == 0 and q.name not in names
    return str(sorted(names))


@check('C18', n=3)
def same_name(rng):
    """Creating a second parameter of the same name (see known_findings.jsonl)."""
    from symfit import Parameter
    nm = fresh(rng)
    a = Parameter(nm, value=2.0, min=0, max=5)
    b = Parameter(nm, value=7.0)
    if (a.value, a.min, a.max) == (2.0, 0, 5): return 'ok'
    if a is b: raise Finding('same-name-aliasing', f'the first parameter now has value {a.value} and bounds {a.min}, {a.max}')
    raise AssertionError((a.value, a.min, a.max))
