"""C08: calling a model evaluates every component at the given point.

T(0..ns-1) is the evaluation order: a topological order of all symbols of the model (the contract of toposort); D(j, c)
are the symbols component c depends on.  The value of a component is whatever its function returns on the values of
its dependencies; calling it on anything else is a violation."""
from contracts.objs import *

T = z3.Function('T', I, Obj)
D = z3.Function('D', I, I, Obj)
nd = z3.Function('n_dependencies', I, I)
val = z3.Function('val', Obj, I, R)
vkey = z3.Function('shape_of_value', Obj, I)
scalar_ = z3.Function('is_number', Obj, B)
CLASSES = {'Model': MO.Model, 'CallableNumericalModel': MO.CallableNumericalModel}


class Symbols(ModelSetup):
    def __init__(self, E, cls):
        self.cls = cls
        ModelSetup.__init__(self, E, cls, consts=False)
        self.ns = z3.Int('n_symbols')
        P = self.P
        E.declare_injective(T); E.declare_injective(D)
        def kind(E, r, cls):
            if cls is Parameter: return role(r.t) == 0
            if cls is Variable: return role(r.t) != 0
        E.schema[Argument] = dict(E.schema[Argument], **{'$isinstance': kind})
        inv = E.inverse
        Ti, Xi, Vi, Pi = (inv[f.name()] for f in (T, X, V, P.fn))
        s, c, j = z3.Ints('$s $c $j')
        def sym(o):     # o is a symbol of the model, at its place in the order
            return z3.And(T(Ti(o)) == o, Ti(o) >= 0, Ti(o) < self.ns)
        def known(o):
            return z3.And(z3.Implies(role(o) == 1, z3.And(X(Xi(o)) == o, Xi(o) >= 0, Xi(o) < self.nx)),
                          z3.Implies(role(o) == 2, z3.And(V(Vi(o)) == o, Vi(o) >= 0, Vi(o) < self.nc)),
                          z3.Implies(role(o) == 0, z3.And(P.fn(Pi(o)) == o, Pi(o) >= 0, Pi(o) < P.n)), role(o) >= 0, role(o) <= 2)
        E.ax_by_fn.setdefault('T', []).append(z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < self.ns), known(T(s))), patterns=[T(s)]))
        E.ax_by_fn.setdefault('V', []).append(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < self.nc), sym(V(c))), patterns=[V(c)]))
        # topological order: what a component depends on comes before it
        E.ax_by_fn.setdefault('D', []).append(z3.ForAll([c, j], z3.Implies(z3.And(c >= 0, c < self.nc, j >= 0, j < nd(c)),
            z3.And(known(D(j, c)), sym(D(j, c)), Ti(D(j, c)) < Ti(V(c)))), patterns=[D(j, c)]))
        E.trusted.add('toposort')

    def install(self): pass         # nothing of the model is assumed here

    def value(self, o):
        E = self.E
        k = E.idx('k')
        key = vkey(o)
        return ite(scalar_(o), val(o, z3.IntVal(0)), STensor([Axis(E.group_size(key), key, grank(key))], [k], val(o, k)))

    def result(self, o):
        """The value as an array of at least one dimension."""
        E = self.E
        k, u = E.idx('k'), E.idx('u')
        key = vkey(o)
        return ite(scalar_(o), STensor([Axis(z3.IntVal(1))], [u], val(o, z3.IntVal(0))), STensor([Axis(E.group_size(key), key, grank(key))], [k], val(o, k)))

    def component_call(self):
        S = self
        def call(E, fn, a, k, s):
            c = fn.data[0]
            form(not a, 'a component')
            j = E.idx('j')
            ops = [('set', x, y) for x, y in k.items()] + (list(s.ops) if s is not None else [])
            E.prove_value('a component is evaluated on the values of its dependencies', SMap(ops),
                          SMap([('loop', nd(c), j, True, SStr(pname(D(j, c))), S.value(D(j, c)))]))
            return S.value(V(c))
        return call

    def build(self):
        E = self.E
        c, d, i, j = E.idx('c'), E.idx('c'), E.idx('i'), E.idx('j')
        deps = E.family(Rec('set', set, {'$c': SSeq([Comp(nd(c), j, True, SRef(D(j, c), Argument))])}), c)(d)
        cm = E.new_dict([('loop', self.nc, d, True, self.v(d), deps)])
        s = E.idx('s')
        E.contracts[MO.BaseModel.ordered_symbols.fget] = lambda E, a, k, st: E.new_list([Comp(self.ns, s, True, SRef(T(s), Argument))])
        e = E.idx('c')
        call = self.component_call()
        comps = E.new_list([Comp(self.nc, e, True, SFun('component', call, (e,)))])
        names = ('_connectivity_mapping',) if self.cls is MO.CallableNumericalModel else ('_cached_connectivity_mapping',)
        m = E.new_obj(self.cls, _params=self.P.list(), independent_vars=E.new_list(seq(self.nx, self.x).segs),
                      model_dict=E.new_dict([('loop', self.nc, (g := E.idx('c')), True, self.v(g), z3.Int('expression'))], collections.OrderedDict))
        for n in names: E.setattr(m, n, cm)
        E.setattr(m, '_cached_numerical_components', comps)
        E.setattr(m, '__signature__', E.new_obj(inspect.Signature))
        return m

    def names_in_order(self):
        """The point, by name, in the order of the signature."""
        E = self.E
        i, j = E.idx('i'), E.idx('j')
        return [('loop', self.nx, i, True, SStr(pname(X(i))), self.value(X(i))), ('loop', self.P.n, j, True, SStr(pname(self.P.fn(j))), self.value(self.P.fn(j)))]


def evaluation(name):
    def t(E):
        S = Symbols(E, CLASSES[name])
        reserve(E, 'self')
        def go():
            m = S.build()
            ops = S.names_in_order()
            def bind(E, a, k, s):
                form(len(a) == 1 and not k, 'Signature.bind')
                E.prove_value('the arguments bound', s if s is not None else SMap(), SMap(ops))
                return SFun('BoundArguments', None, (), attrs={'arguments': E.new_dict(ops, collections.OrderedDict)})
            E.contracts[inspect.Signature.bind] = bind
            E.trusted.add('inspect.Signature.bind')
            def inv(t):
                s = E.idx('s')
                return SMap(tuple(ops) + (('loop', t, s, role(T(s)) == 2, SStr(pname(T(s))), S.value(T(s))),))
            E.invariants = {'eval_components': {'*': inv}}
            r = E.call(E.getattr(m, 'eval_components'), [], {}, SMap(ops))
            c = E.idx('c')
            E.prove_value('every component has its value', r, SSeq([Comp(S.nc, c, True, S.result(V(c)))]))
        run(E, f'{name}.eval_components', go)
    return t


for name in CLASSES: task('C08', f'evaluation: {name}')(evaluation(name))


def calling(name, style):
    """The whole call: binding, evaluation and the output object."""
    def t(E):
        S = Symbols(E, CLASSES[name])
        reserve(E, 'self')
        signatures(E)
        def go():
            m = S.build()
            E.setattr(m, '__signature__', E.call(E.getattr(m, '_make_signature'), []))
            ops = S.names_in_order()
            def inv(t):
                s = E.idx('s')
                return SMap(tuple(ops) + (('loop', t, s, role(T(s)) == 2, SStr(pname(T(s))), S.value(T(s))),))
            E.invariants = {'eval_components': {'*': inv}}
            from pyvc.engine import Star
            xs, ps = seq(S.nx, lambda i: S.value(X(i))), seq(S.P.n, lambda i: S.value(S.P.fn(i)))
            if style == 'by position': a, s = [Star(SSeq(xs.segs + ps.segs))], None
            elif style == 'data by position, parameters by name': a, s = [Star(xs)], SMap(ops[1:])
            else: a, s = [], SMap(ops[::-1])
            out = E.call(m, a, {}, s)
            c = E.idx('c')
            want = seq(S.nc, lambda c: S.result(V(c)))
            E.prove_value('the output in order', SSeq(E.iter_value(out).segs), want)
            E.prove_value('as many items as components', E.call(len, [out]), S.nc)
            E.prove_value('by variable', E.call(E.getattr(out, '_asdict'), []), SMap([('loop', S.nc, c, True, S.v(c), S.result(V(c)))]))
            q = z3.Int('some_component')
            E.assume(z3.And(q >= 0, q < S.nc))
            E.prove_value('by index', E.call(MO.ModelOutput.__getitem__, [out, q]), S.result(V(q)))
            E.prove_value('by name', E.call(MO.ModelOutput.__getattr__, [out, SStr(pname(V(q)))]), S.result(V(q)))
            E.prove_value('the variables', E.getattr(out, 'variables'), seq(S.nc, S.v))
        run(E, f'{name}.__call__', go)
    return t


for name in CLASSES:
    for style in ('by position', 'by name', 'data by position, parameters by name'):
        task('C08', f'call {style}: {name}')(calling(name, style))


EX = z3.Function('expression', I, Obj)
symbolic = z3.Function('is_symbolic', I, B)


def compiling(name):
    """numerical_components: item c is the compiled expression of component c, as a function of what it depends on."""
    def t(E):
        import sympy
        S = Symbols(E, CLASSES[name])
        reserve(E, 'self')
        E.declare_injective(EX)
        def go():
            m = S.build()
            call = S.component_call()
            def compiled(E, a, k, s):
                d = dict(zip(('func', 'args'), a)); d.update(k)
                e, args = E.force(d['func']), SSeq(E.norm_segs(E.as_seq(E.iter_value(d['args']))))
                E.prove('an expression of the model is compiled', isinstance(e, SRef) and e.t.decl().eq(EX))
                c = e.t.arg(0)
                j = E.idx('j')
                E.prove('compiled as a function of all it depends on', Implies(And(j >= 0, j < nd(c)), E.seq_contains(args, SRef(D(j, c), Argument))))
                E.prove_value('as many arguments as dependencies', E.seq_len(args), nd(c))
                return SFun('component', call, (c,))
            E.contracts[SU.sympy_to_py] = compiled
            E.contracts[MO.sympy_to_py] = compiled
            E.trusted.add('sympy.lambdify')
            expr = lambda c: SRef(EX(c), sympy.Expr) if name == 'Model' else ite(symbolic(c), SRef(EX(c), sympy.Expr), SFun('component', call, (c,)))
            c = E.idx('c')
            E.setattr(m, 'model_dict', E.new_dict([('loop', S.nc, c, True, S.v(c), expr(c))], collections.OrderedDict))
            f = [k for k in S.cls.__mro__ if 'numerical_components' in vars(k)][0]
            r = E.call(vars(f)['numerical_components'].fget, [m])
            E.prove_value('one function per component, in order', SSeq(E.iter_value(r).segs), seq(S.nc, lambda c: SFun('component', call, (c,))))
        run(E, f'{name}.numerical_components', go)
    return t


for name in CLASSES: task('C08', f'compiled components: {name}')(compiling(name))


Gs = z3.Function('G', I, I, Obj)          # element m of the toposort group g
gn = z3.Function('group_size', I, I)


def ordered_symbols(E):
    """ordered_symbols goes through the groups of toposort in order and through every member of each once."""
    S = Symbols(E, MO.Model)
    E.declare_injective(Gs)
    ng = z3.Int('n_groups')
    g, k = E.idx('g'), E.idx('m')
    gp = z3.Function('group_of', Obj, I)
    a, b = z3.Ints('$a $b')
    E.ax_by_fn.setdefault('G', []).append(z3.ForAll([a, b], z3.And(gp(Gs(a, b)) == b), patterns=[Gs(a, b)]))
    E.assume(ng >= 0)
    kinds = z3.Function('is_derivative', Obj, B)
    def go():
        m = S.build()
        topo(E, [Comp(ng, g, True, E.family(Rec('set', set, {'$c': SSeq([Comp(gn(g), k, True, SRef(Gs(k, g), Argument))])}), g)(g))])
        E.ax_by_fn.setdefault('group_size', []).append(z3.ForAll([a], gn(a) >= 0, patterns=[gn(a)]))
        del E.contracts[ORDERED]
        r = E.call(ORDERED, [m])
        segs = E.norm_segs(E.as_seq(r))
        E.prove('group after group', len(segs) == 1 and type(segs[0]) is Flat and segs[0].cond is True and E.proves_eq(real(segs[0].n), ng))
        s = segs[0]
        q, j = z3.Int('some_group'), z3.Int('some_member')
        E.assume(z3.And(q >= 0, q < ng, j >= 0))
        items = subst(s.seq, [(s.var, q)])
        E.prove_value('as many symbols as the group has', E.seq_len(items), gn(q))
        E.prove('every symbol of the group', Implies(j < gn(q), E.seq_contains(items, SRef(Gs(j, q), Argument))))
    run(E, 'ordered_symbols', go)

ORDERED = vars(MO.BaseModel)['ordered_symbols'].fget
TOPO = MO.toposort

def topo(E, groups):
    def h(E, a, k, s):
        cm = a[0]
        return SSeq(groups)
    E.contracts[TOPO] = h
    E.trusted.add('toposort')
task('C08', 'evaluation order')(ordered_symbols)


Y0 = z3.Function('model_key', I, Obj)
sgname = z3.Function('sigma_name', I, I)


def initialise(E):
    """_init_from_dict: components, variables and parameters in alphabetical order, each symbol where it belongs."""
    S = Symbols(E, MO.Model)
    E.declare_injective(Gs); E.declare_injective(Y0); E.declare_injective(sgname)
    signatures(E)
    reserve(E, 'self')
    n, ng = z3.Int('n_keys'), z3.Int('n_middle')
    a, b = z3.Ints('$a $b')
    E.ax_by_fn.setdefault('group_size', []).append(z3.ForAll([a], gn(a) >= 0, patterns=[gn(a)]))
    E.assume(z3.And(n >= 0, ng >= 0))
    iskey = z3.Function('is_component', Obj, B)
    gp = z3.Function('group_of', Obj, I)
    E.ax_by_fn.setdefault('G', []).append(z3.ForAll([a, b], gp(Gs(a, b)) == b, patterns=[Gs(a, b)]))
    o = z3.Const('$o', Obj)
    Yi = E.inverse['model_key']
    E.ax_by_fn.setdefault('model_key', []).append(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), iskey(Y0(a))), patterns=[Y0(a)]))
    E.ax_by_fn.setdefault('is_component', []).append(z3.ForAll([o], z3.Implies(iskey(o), z3.And(Y0(Yi(o)) == o, Yi(o) >= 0, Yi(o) < n)), patterns=[iskey(o)]))
    # precondition: parameters are no components, and the symbols above the bottom of the order are components
    misplaced = z3.Bool('a_parameter_is_a_component')
    def group(q):
        k = E.idx('m')
        return E.new_set([Comp(gn(z3.IntVal(q)), k, True, SRef(Gs(k, z3.IntVal(q)), Argument))])
    def go():
        E.str_build = lambda E, parts: SStr(sgname(parts[1].t)) if len(parts) == 2 and parts[0] == 'sigma_' and isinstance(parts[1], SStr) else None
        made = z3.Function('variable_named', I, Obj)
        def variable(E, a, k, s):
            d = dict(zip(('name',), a)); d.update(k)
            return SRef(made(d['name'].t), Variable)
        E.contracts[Variable] = variable
        E.trusted.add('Variable construction (C18)')
        g, k = E.idx('g'), E.idx('m')
        mid = E.family(Rec('set', set, {'$c': SSeq([Comp(gn(g), k, True, SRef(Gs(k, g), Argument))])}), g)
        h = E.idx('g')
        topo(E, [Unit(group(-1)), Comp(ng, h, True, mid(h)), Unit(group(-2))])
        i = E.idx('i')
        md = E.new_dict([('loop', n, i, True, SRef(Y0(i), Argument), z3.Function('expression_of', Obj, I)(Y0(i)))])
        m = E.new_obj(MO.Model, _cached_connectivity_mapping=E.new_dict(()))
        try: E.call(E.getattr(m, '_init_from_dict'), [md])
        except Raised as e:
            if not E.exc_isinstance(e.val, MO.ModelError): raise
            # refused only when a parameter is above the bottom
            q = E.idx('q')
            some = z3.Or(z3.Exists([q], z3.And(q >= 0, q < gn(-2), role(Gs(q, z3.IntVal(-2))) == 0)),
                         z3.Exists([q, g], z3.And(g >= 0, g < ng, q >= 0, q < gn(g), role(Gs(q, g)) == 0)))
            E.prove('refused only if a parameter is used as a component', some)
            raise
        def items(attr):
            return E.as_seq(E.getattr(m, attr))
        def check(what, seq, member):
            """seq holds exactly the symbols with member(o), in alphabetical order."""
            segs = E.norm_segs(seq)
            E.prove(f'{what}: one sequence', len(segs) == 1 and type(segs[0]) is Comp)
            s = segs[0]
            x, y = z3.Int('place'), z3.Int('later_place')
            E.assume(z3.And(x >= 0, x < y, y < real(s.n)))
            key = lambda q: subst(s.body, [(s.var, q)]).t
            c = lambda q: subst(s.cond, [(s.var, q)])
            E.prove(f'{what}: in alphabetical order', Implies(And(c(x), c(y)), pname(key(x)) < pname(key(y))))
            return s, key, c
        def members(what, q, filt):
            s, key, c = check(what, items(what), None)
            j, x = z3.Int('member'), z3.Int('place_')
            el = Gs(j, z3.IntVal(q))
            E.prove(f'{what}: all of them', Implies(And(j >= 0, j < gn(z3.IntVal(q)), filt(el)), E.seq_contains(SSeq([s]), SRef(el, Argument))))
            E.prove(f'{what}: nothing else', Implies(And(x >= 0, x < real(s.n), c(x)), And(gp(key(x)) == q, filt(key(x)))))
        members('independent_vars', -1, lambda o: z3.And(role(o) != 0, z3.Not(iskey(o))))
        members('params', -1, lambda o: role(o) == 0)
        members('dependent_vars', -2, lambda o: z3.BoolVal(True))
        s, key, c = check('interdependent_vars', items('interdependent_vars'), None)
        x, gg, j = z3.Ints('place_m group_m member_m')
        E.prove('interdependent_vars: nothing else', Implies(And(x >= 0, x < real(s.n), c(x)), And(gp(key(x)) >= 0, gp(key(x)) < ng)))
        md = E.getattr(m, 'model_dict')
        ks = E.map_seq(E.items(E.getf(md, '$c')), lambda kv: kv[0])
        check('components', ks, None)
        y = z3.Int('component')
        E.assume(z3.And(y >= 0, y < n))
        p, v = E.map_lookup(E.getf(md, '$c'), SRef(Y0(y), Argument))
        E.prove('components: all of them', p)
        E.prove_value('components: with their expressions', v, z3.Function('expression_of', Obj, I)(Y0(y)))
        E.prove_value('as many components', E.map_len(E.getf(md, '$c')), n)
        sg = E.getf(E.getattr(m, 'sigmas'), '$c')
        dv = E.norm_segs(items('dependent_vars'))[0]
        d = E.idx('d')
        E.prove_value('one sigma per dependent variable', SMap(sg.ops), SMap([('loop', real(dv.n), dv.var, dv.cond, dv.body, SRef(made(sgname(pname(dv.body.t))), Variable))]))
        sig = E.getf(E.getattr(m, '__signature__'), '$names')
        E.prove_value('the signature: independent variables, then parameters', sig,
                      E.map_seq(SSeq(items('independent_vars').segs + items('params').segs), lambda x: SStr(pname(x.t))))
    run(E, '_init_from_dict', go, raises=(MO.ModelError,))
task('C08', 'initialisation')(initialise)
