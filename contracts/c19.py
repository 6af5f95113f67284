"""C19: cached_property as a transition system (every operation, from every state), key2str, and what survives pickling."""
import builtins, collections
from pyvc.lib import *
from symfit.core import support as SU, models as MO, objectives as O

val = z3.Function('value_of_call', Obj, I, Obj)


class Boom(Exception): pass


# whatever the computation may raise: every exception of Python, and one of the user's
ERRORS = [Boom] + [e for e in vars(builtins).values() if isinstance(e, type) and issubclass(e, Exception) and not issubclass(e, (UnicodeError, Warning)) and not e.__name__.endswith('Group')]


def fget_one(self): raise NotImplementedError


def fget_two(self): raise NotImplementedError


class Q:
    """A class with two cached quantities; what they compute is left open."""
    __pyvc__ = True
    one = SU.cached_property(fget_one)
    two = SU.cached_property(fget_two)


ATTR = {'one': Q.__dict__['one'].cache_attr, 'two': Q.__dict__['two'].cache_attr}
NAMES = ('one', 'two')


def anyvalue(E, tag):
    """Any value, None and 0 included."""
    return SIte(z3.Bool('none_' + tag), None, SIte(z3.Bool('zero_' + tag), 0, SRef(z3.Const('val_' + tag, Obj), object)))


class State:
    def __init__(self, E, tag=''):
        self.E, self.tag = E, tag
        self.cached = {n: z3.Bool(f'cached_{n}{tag}') for n in NAMES}
        self.old = {n: anyvalue(E, f'old_{n}{tag}') for n in NAMES}
        f = {ATTR[n]: SIte(self.cached[n], self.old[n], MISSING) for n in NAMES}
        self.obj = E.new_obj(Q, other=z3.Int('other' + tag), **f)
        self.calls = []
        self.raises = z3.Bool('raises')

    def install(self, exc=Boom):
        E = self.E
        def handler(name):
            def h(E, a, k, s):
                self.calls.append((name, a[0]))
                if E.branch(self.raises): raise Raised(exc())
                return anyvalue(E, 'new_' + name)
            return h
        for f, n in ((fget_one, 'fget_one'), (fget_two, 'fget_two')): E.contracts[f] = handler(n)

    def check(self, what, **now):
        """The caches hold exactly what `now` says (a value or MISSING), by default what they held before."""
        E = self.E
        f = E.rec(self.obj).f
        for n in NAMES:
            want = now.get(n, f'old_{n}')
            if isinstance(want, str): want = SIte(self.cached[n], self.old[n], MISSING)
            want, got = E.force(want), E.force(f.get(ATTR[n], MISSING))
            E.prove(f'{what}: presence of the cache of {n}', (want is MISSING) == (got is MISSING))
            if want is not MISSING and got is not MISSING: E.prove_value(f'{what}: the cache of {n}', got, want)
        E.prove_value(f'{what}: other attributes', f.get('other'), z3.Int('other' + self.tag))
        E.prove(f'{what}: no further attributes', set(k for k in f if not k.startswith('$')) <= {'other', *ATTR.values()})


@task('C19', 'names')
def _(E):
    def go():
        for n in NAMES: E.prove(f'{n} is recognised as a cache when pickling', ATTR[n].startswith(SU.cached_property.base_str))
        E.prove('different quantities use different caches', ATTR['one'] != ATTR['two'])
    run(E, 'cache attributes', go)


@task('C19', 'init')
def _(E):
    """__init__ gives every function name its own attribute, starting with the prefix."""
    joined = z3.Function('text_then', I, I, I)
    p, q, a, b = (z3.Int('$' + x) for x in 'pqab')
    E.ax_by_fn.setdefault('text_then', []).append(z3.ForAll([p, q, a, b], z3.Implies(z3.And(joined(p, a) == joined(q, b), p == q), a == b), patterns=[z3.MultiPattern(joined(p, a), joined(q, b))]))
    E.trusted.add('concatenation: the same text followed by different names differs')
    def build(E, parts):
        if len(parts) > 1 and all(isinstance(x, str) for x in parts[:-1]) and isinstance(parts[-1], SStr):
            prefixes.append(''.join(parts[:-1]))
            return SStr(joined(E.str_lit(prefixes[-1]), parts[-1].t))
    E.str_build = build
    prefixes = []
    def go():
        prefixes.clear()
        names = [z3.Int('name_one'), z3.Int('name_two')]
        E.assume(names[0] != names[1])
        attrs = []
        for nm in names:
            me = E.new_obj(SU.cached_property)
            fn = SFun('fget', None, (), attrs={'__name__': SStr(nm), '__doc__': None})
            E.call(SU.cached_property.__dict__['__init__'], [me, fn])
            attrs.append(E.force(E.getf(me, 'cache_attr')))
        E.prove('made from the name of the function', all(isinstance(x, SStr) for x in attrs))
        if not all(isinstance(x, SStr) for x in attrs): return
        E.prove('recognised as a cache when pickling', all(x.startswith(SU.cached_property.base_str) for x in prefixes))
        E.prove('functions of different names use different caches', attrs[0].t != attrs[1].t)
    run(E, 'cached_property.__init__', go)


for nm in NAMES:
    @task('C19', f'get-{nm}')
    def _(E, nm=nm):
        for exc in ERRORS:
            def go():
                S = State(E); S.install(exc)
                try:
                    r = E.getattr(S.obj, nm)
                except Raised as e:
                    E.prove('only an error of the computation gets out', E.exc_isinstance(e.val, exc))
                    E.prove('... and only when it was computed', And(Not(S.cached[nm]), S.raises))
                    E.prove('... once', S.calls == [('fget_' + nm, S.obj)])
                    S.check('after an error', **{nm: MISSING})
                    return
                if E.branch(S.cached[nm]):
                    E.prove('not computed again', not S.calls)
                    E.prove_value('the cached value', r, S.old[nm])
                    S.check('cached read')
                else:
                    E.prove('computed exactly once, for this object', S.calls == [('fget_' + nm, S.obj)])
                    E.prove('errors are not swallowed', Not(S.raises))
                    E.prove_value('the computed value', r, anyvalue(E, 'new_fget_' + nm))
                    S.check('first read', **{nm: anyvalue(E, 'new_fget_' + nm)})
                    n = len(S.calls)
                    r2 = E.getattr(S.obj, nm)
                    E.prove('a second read computes nothing', len(S.calls) == n)
                    E.prove_value('a second read gives the same', r2, r)
            run(E, f'reading {nm} ({exc.__name__})', go)

    @task('C19', f'delete-{nm}')
    def _(E, nm=nm):
        def go():
            S = State(E); S.install()
            E.delattr(S.obj, nm)
            E.prove('deleting computes nothing', not S.calls)
            S.check('after deletion', **{nm: MISSING})
        run(E, f'deleting {nm}', go)

    @task('C19', f'set-{nm}')
    def _(E, nm=nm):
        def go():
            S = State(E); S.install()
            try: E.setattr(S.obj, nm, z3.Int('x'))
            except Raised as e: E.prove('refused', E.exc_isinstance(e.val, AttributeError))
            else: E.prove('refused', False)
            S.check('after an attempt to set')
        run(E, f'setting {nm}', go)

    @task('C19', f'objects-{nm}')
    def _(E, nm=nm):
        """Operations on one object leave every other object alone."""
        def go():
            S, T = State(E), State(E, '_b')
            S.install()
            try: E.getattr(S.obj, nm)
            except Raised: pass
            T.check('the other object after reading')
            E.delattr(S.obj, nm)
            T.check('the other object after deleting')
        run(E, f'{nm} of two objects', go)


# ---------------------------------------------------------------------- the state that is pickled
def caches(cls):
    return {n: c for k in reversed(cls.__mro__) for n, c in vars(k).items() if isinstance(c, SU.cached_property)}


def pickled(cls, kind='objects'):
    def t(E):
        cs = caches(cls)
        val = lambda n: {'objects': lambda: SRef(z3.Const('val_' + n, Obj), object), 'None': lambda: None, 'numbers': lambda: z3.Int('val_' + n), 'lists': lambda: E.new_list(), 'dicts': lambda: E.new_dict()}[kind]()
        def go():
            f = {'alpha': z3.Int('alpha'), '__signature__': SRef(z3.Const('sig', Obj), object), 'model_dict': SRef(z3.Const('md', Obj), object)}
            keep = {k: v for k, v in f.items() if k != '__signature__'}
            for n, c in cs.items(): f[c.cache_attr] = SIte(z3.Bool('cached_' + n), val(n), MISSING)
            obj = E.new_obj(cls, **f)
            before = dict(E.rec(obj).f)
            st = E.call(E.getattr(obj, '__getstate__'), [])
            after = E.rec(obj).f
            E.prove('the original keeps its attributes', set(before) == set(after))
            for k, v in before.items():
                if k in keep: E.prove_value(f'{k} of the original', after.get(k), v)
            E.prove_value('exactly the attributes that are not cached', st, E.new_dict([('set', k, v) for k, v in keep.items()]))
            new = E.new_obj(cls)
            made = []
            sig = getattr(cls, '_make_signature', None)
            if sig is not None: E.contracts[sig] = lambda E, a, k, s: SRef(z3.Const('newsig', Obj), object)
            E.call(E.getattr(new, '__setstate__'), [st])
            g = E.rec(new).f
            E.prove('nothing is cached after restoring', not any(k.startswith(SU.cached_property.base_str) for k in g if g[k] is not MISSING))
            for k, v in keep.items(): E.prove_value(f'restored {k}', g.get(k), v)
            if sig is not None: E.prove_value('the signature is made anew', g.get('__signature__'), SRef(z3.Const('newsig', Obj), object))
        run(E, f'{cls.__name__}: __getstate__, __setstate__ ({kind})', go)
    return t


for c in (MO.CallableModel, MO.CallableNumericalModel, MO.GradientModel, MO.Model, MO.ODEModel):
    for kd in ('objects', 'None', 'numbers', 'lists', 'dicts'): task('C19', f'pickled-{c.__name__} ({kd})')(pickled(c, kd))


# ---------------------------------------------------------------------- key2str
from symfit import Variable
ORDERS = (('parameters', 'variables', 'names'), ('variables', 'names', 'parameters'), ('names', 'parameters', 'variables'))


for cls in (dict, collections.OrderedDict):
    for order in ORDERS:
        @task('C19', f'key2str-{cls.__name__}, {order[0]} first')
        def _(E, cls=cls, order=order):
            """Keys may be parameters, variables and names, in any order (all of different names)."""
            P = Params(E)
            Vv, Nn = z3.Function('variable', I, Obj), z3.Function('text', I, I)
            E.declare_injective(Vv); E.declare_injective(Nn)
            n, m = z3.Int('n_variables'), z3.Int('n_names')
            E.assume(z3.And(n >= 0, m >= 0))
            v = {o: z3.Function('value_' + o, I, R) for o in order}
            i = z3.Int('$i')
            role = z3.Function('role', I, I)
            for f, r, at in ((P.fn, 0, lambda i: pname(P.fn(i))), (Vv, 1, lambda i: pname(Vv(i))), (Nn, 2, lambda i: Nn(i))):
                E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([i], role(at(i)) == r, patterns=[f(i)]))
            a, b, c = z3.Int('a_'), z3.Int('b_'), z3.Int('c_')
            ent = {'parameters': (P.n, a, P.free(a), P.at(a), SStr(pname(P.fn(a)))), 'variables': (n, b, True, SRef(Vv(b), Variable), SStr(pname(Vv(b)))), 'names': (m, c, True, SStr(Nn(c)), SStr(Nn(c)))}
            def go():
                ops = lambda q: [('loop', *ent[o][:3], ent[o][q], v[o](ent[o][1])) for o in order]
                d = E.new_dict(ops(3), cls)
                r = E.call(SU.key2str, [d])
                E.prove('the type is kept', isinstance(r, H) and E.rec(r).cls is cls)
                E.prove('a new dictionary', isinstance(r, H) and r.id != d.id)
                E.prove_value('names, values and order', E.iter_value(E.call(E.getattr(r, 'items'), [])), SSeq([Comp(*ent[o][:3], (ent[o][4], v[o](ent[o][1]))) for o in order]))
                E.prove_value('the argument is not changed', E.iter_value(E.call(E.getattr(d, 'items'), [])), SSeq([Comp(*ent[o][:3], (ent[o][3], v[o](ent[o][1]))) for o in order]))
            run(E, f'key2str ({cls.__name__}, {order[0]} first)', go)
