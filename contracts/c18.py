"""C18: what a Parameter is created with, when two are equal, what parameters() hands to each, generated names."""
import itertools
from contracts.objs import *
from pyvc.engine import Rec
from symfit.core import argument as AR
from sympy import Symbol, Basic, Expr
import sympy, types

ATTRS = ('value', 'min', 'max', 'fixed')
DEFAULT = {'value': 1.0, 'min': None, 'max': None, 'fixed': False}


def bound(E, nm, *a):
    """A bound: a number or None."""
    has, val = z3.Bool('has_' + nm), z3.Real(nm)
    return SIte(has, val, None)


def crossed(lo, hi):
    """The minimum exceeds the maximum."""
    if lo is None or hi is None: return False
    if isinstance(lo, SIte): return And(lo.c, crossed(lo.a, hi))
    if isinstance(hi, SIte): return And(hi.c, crossed(lo, hi.a))
    return lo > hi


# ---------------------------------------------------------------------- the constructor
@task('C18', 'Parameter.__init__')
def _(E):
    fixed = z3.Bool('fixed')
    given = {'value': z3.Real('value'), 'min': bound(E, 'min'), 'max': bound(E, 'max'), 'fixed': fixed}
    for use in [c for n in range(5) for c in itertools.combinations(ATTRS, n)]:
        def go():
            p = E.new_obj(Parameter)
            kw = {k: given[k] for k in use}
            want = {k: kw.get(k, DEFAULT[k]) for k in ATTRS}
            bad = And(crossed(want['min'], want['max']), Not(want['fixed']) if isz(want['fixed']) else not want['fixed'])
            try: E.call(Parameter.__init__, [p, SStr(z3.Int('nm'))], kw)
            except Raised as e:
                E.prove('refused with a ValueError', E.exc_isinstance(e.val, ValueError))
                E.prove('... only when min exceeds max and the parameter is free', bad)
                return
            E.prove('refused when min exceeds max and the parameter is free', Not(bad) if isz(bad) else not bad)
            f = E.rec(p).f
            E.prove_value('the name', f.get('name'), SStr(z3.Int('nm')))
            for k in ATTRS: E.prove_value(k, f.get(k), want[k])
        run(E, f'Parameter(name, {", ".join(use)})', go)


# ---------------------------------------------------------------------- equality
@task('C18', 'Parameter.__eq__')
def _(E):
    symeq = z3.Function('same_symbol', Obj, Obj, B)          # sympy: same name and assumptions
    base = getattr(Symbol, '__eq__')
    def contract(E, a, k, s):
        x, y = a
        if isinstance(y, SRef) and isinstance(y.cls, type) and issubclass(y.cls, Basic):
            return symeq(x.t, y.t) if y.cls is x.cls else False
        return NotImplemented
    E.contracts[base] = contract
    E.trusted.add('sympy Basic.__eq__ (same class, name and assumptions)')
    a, b = z3.Const('a', Obj), z3.Const('b', Obj)
    def go():
        x, y = SRef(a, Parameter), SRef(b, Parameter)
        r = E.call(Parameter.__eq__, [x, y])
        mn = lambda o: ite(phasmin(o), pmin(o), None)
        eqo = lambda h, v: Or(And(h(a), h(b), v(a) == v(b)), And(Not(h(a)), Not(h(b))))
        want = And(symeq(a, b), eqo(phasmin, pmin), eqo(phasmax, pmax), pfixed(a) == pfixed(b), pvalue(a) == pvalue(b))
        r = E.truth(r)
        E.prove('equal exactly if all attributes are', tobool(r) == want)
    run(E, 'two parameters', go)
    def other(v):
        def go():
            r = E.call(Parameter.__eq__, [SRef(a, Parameter), v])
            E.prove('not equal', r is NotImplemented or E.truth(r) is False)
        return go
    run(E, 'a parameter and a variable', other(SRef(b, Variable)))
    run(E, 'a parameter and a number', other(z3.Real('num')))
    run(E, 'a parameter and None', other(None))


# ---------------------------------------------------------------------- parameters()
KINDS = ('absent', 'scalar', 'list', 'iterator')


def several(kinds):
    def t(E):
        P = Params(E)
        E.assume(P.n >= 1)
        has = {k: z3.Function('entry_has_' + k, I, B) for k in ('min', 'max')}
        ent = {'value': z3.Function('entry_value', I, R), 'min': z3.Function('entry_min', I, R), 'max': z3.Function('entry_max', I, R), 'fixed': z3.Function('entry_fixed', I, B)}
        scal = {'value': z3.Real('value'), 'min': bound(E, 'min'), 'max': bound(E, 'max'), 'fixed': z3.Bool('fixed')}
        size = {k: z3.Int('len_' + k) for k in ATTRS}
        entry = lambda k, i: SIte(has[k](i), ent[k](i), None) if k in has else ent[k](i)
        for k in ATTRS:
            E.assume(size[k] >= 0)
            if kinds[k] == 'iterator': E.assume(size[k] == P.n)
        def want(k, i):
            if kinds[k] in ('list', 'iterator'): return entry(k, i)
            return scal[k] if kinds[k] == 'scalar' else DEFAULT[k]
        asked = []
        def symbols(E, a, k, s):
            """sympy.symbols with seq=True: one Parameter per name, in order, every one created with the keywords given.
            (Parameter.__init__ by its own contract.)"""
            k = dict(k)
            asked.append((a, k.pop('cls', None), k.pop('seq', None), dict(k)))
            lo, hi, fx = (k.get(n, DEFAULT[n]) for n in ('min', 'max', 'fixed'))
            bad = And(crossed(E.force(lo), E.force(hi)), Not(fx) if isz(fx) else not fx)
            if E.branch(tobool(bad)): raise Raised(ValueError('min > max'))
            for at in ATTRS:
                i = E.idx('i')
                E.heap[('attr', at)] = Rec('dict', dict, {'$c': SMap([('loop', P.n, i, True, P.at(i), k.get(at, DEFAULT[at]))])})
            return E.new_list(P.seq().segs)
        E.contracts[sympy.symbols] = symbols
        E.contracts[SU.symbols] = symbols
        E.trusted.add('sympy.symbols')
        names = SStr(z3.Int('names'))
        def go():
            kw = {}
            for k in ATTRS:
                if kinds[k] == 'absent': continue
                if kinds[k] == 'scalar': kw[k] = scal[k]; continue
                i = E.idx('i')
                l = E.new_list([Comp(size[k], i, True, entry(k, i))])
                kw[k] = l if kinds[k] == 'list' else E.call(iter, [l])
            asked.clear()
            i0 = z3.Int('i0')
            wrong = Or(*[size[k] != P.n for k in ATTRS if kinds[k] == 'list'], False)
            seqb = any(kinds[k] in ('list', 'iterator') for k in ('min', 'max'))
            i = E.idx('i')
            anybad = tobool(crossed(want('min', i), want('max', i)))
            if seqb: bad = z3.Exists([i], z3.And(i >= 0, i < P.n, anybad))
            else:
                # both bounds given once for all: as the constructor decides
                fx = kw.get('fixed', False) if kinds['fixed'] in ('scalar', 'absent') else False
                bad = And(crossed(want('min', 0), want('max', 0)), Not(fx) if isz(fx) else not fx)
            try: r = E.call(SU.parameters, [names], kw)
            except Raised as e:
                E.prove('refused with a ValueError', E.exc_isinstance(e.val, ValueError))
                E.prove('... only for a wrong length or crossed bounds', Or(wrong, bad))
                return
            E.prove('lengths match', Not(wrong) if isz(wrong) else not wrong)
            E.prove('bounds not crossed', Not(bad) if isz(bad) else not bad)
            E.prove('the symbols are made once', len(asked) == 1)
            a, cls, seq_, k = asked.pop()
            form(len(a) == 1 and seq_ is True, 'sympy.symbols')
            E.prove('as Parameters', cls is Parameter)
            E.prove_value('with the names given', a[0], names)
            E.prove_value('all of them are returned, in order', E.as_seq(E.iter_value(r)), P.seq())
            E.assume(z3.And(i0 >= 0, i0 < P.n))
            for at in ATTRS: E.prove_value(f'{at} of every parameter', E.getattr(P.at(i0), at), want(at, i0))
        run(E, f'parameters({", ".join(k + ": " + v for k, v in kinds.items())})', go)
    return t


for mn in KINDS:
    for mx in KINDS:
        for vl, fx in itertools.product(KINDS, KINDS):
            if mn != mx and not (vl == fx or (vl, fx) == ('scalar', 'list')): continue
            ks = dict(value=vl, min=mn, max=mx, fixed=fx)
            task('C18', 'parameters-' + '-'.join(v[:2] for v in ks.values()))(several(ks))


# ---------------------------------------------------------------------- generated names
gen = z3.Function('generated_name', I, I, I)          # text of '<prefix>' followed by a number


def naming(cls, how):
    def t(E):
        a, b, p, q = (z3.Int('$' + x) for x in 'abpq')
        E.ax_by_fn.setdefault('generated_name', []).append(z3.ForAll([a, b, p, q], z3.Implies(gen(p, a) == gen(q, b), z3.And(p == q, a == b)), patterns=[z3.MultiPattern(gen(p, a), gen(q, b))]))
        E.trusted.add("str.format: '<prefix>_<number>' differs for different prefixes par/var and for different numbers")
        def build(E, parts):
            if len(parts) > 1 and all(isinstance(x, str) for x in parts[:-1]) and isz(parts[-1]) and parts[-1].is_int():
                return SStr(gen(E.str_lit(''.join(parts[:-1])), parts[-1]))
        E.str_build = build
        made = []
        def new(E, a, k, s):
            d = dict(zip(('cls', 'name'), a)); d.update(k)
            made.append(d)
            return E.new_obj(d['cls'], name=d['name'])
        E.contracts[Symbol.__new__] = new
        E.trusted.add('sympy Symbol.__new__')
        other = Variable if cls is Parameter else Parameter
        n, m, j = z3.Int('count'), z3.Int('count_other'), z3.Int('earlier')
        E.assume(z3.And(n >= 0, m >= 0, j >= 0))
        def go():
            made.clear()
            counts = E.new_dict([('set', cls, n), ('set', other, m)], collections.defaultdict)
            E.setf(counts, '$factory', int)
            E.statics[AR.Argument, '_argument_indices'] = counts
            given = SStr(z3.Int('given_name'))
            E.assume(given.t != E.str_lit(''))
            r = E.call(cls.__new__, [cls] + ([given] if how == 'named' else []))
            E.prove('one symbol is made', len(made) == 1 and made[0]['cls'] is cls)
            nm = made[0]['name']
            E.prove_value('it is returned', r, r) if isinstance(r, H) and E.rec(r).cls is cls else E.prove('it is returned', False)
            c1, c2 = E.getitem(counts, cls), E.getitem(counts, other)
            E.prove('numbers given out are not given out again', And(c1 >= n, c2 == m))
            if how == 'named':
                E.prove_value('the name asked for', nm, given)
            else:
                E.prove('the name counts as given out', Or(*[And(nm.t == gen(E.str_lit(f'{cls._argument_name}_'), i), i < c1, i >= n) for i in (n, c1)], False))
                E.prove('no earlier name of this kind', Implies(j < n, nm.t != gen(E.str_lit(f'{cls._argument_name}_'), j)))
                E.prove('no name of the other kind', nm.t != gen(E.str_lit(f'{other._argument_name}_'), j))
        run(E, f'{cls.__name__} ({how})', go)
    return t


for c in (Parameter, Variable):
    for how in ('named', 'nameless'): task('C18', f'name-{c.__name__}-{how}')(naming(c, how))
