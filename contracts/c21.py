"""C21: a symbolic expression computes the same thing as a function.

An expression has the variables X(0..nx-1) and the parameters P(0..np-1), each in alphabetical order (the contract of
seperate_symbols, proved here); the function compiled from it takes exactly its symbols (the contract of sympy_to_py,
proved here up to sympy's own lambdify)."""
from contracts.objs import *
from symfit.core import operators as OP, printing as PR
from pyvc.engine import Star
import sympy
from sympy.core.expr import Expr

given = z3.Function('value_given', Obj, R)
other = z3.Function('other_name', I, I)
other_value = z3.Function('other_value', I, R)


def calling(style):
    """expr(...): the compiled function gets the value of every symbol, and nothing else."""
    def t(E):
        P = Params(E)
        E.declare_injective(X); E.declare_injective(other)
        i = z3.Int('$i')
        nx, no = z3.Int('nx'), z3.Int('n_others')
        for f, r in ((P.fn, 0), (X, 1)): E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([i], role(f(i)) == r, patterns=[f(i)]))
        o = z3.Const('$o', Obj)
        E.ax_by_fn.setdefault('other_name', []).append(z3.ForAll([i, o], other(i) != pname(o), patterns=[z3.MultiPattern(other(i), pname(o))]))
        E.assume(z3.And(nx >= 0, no >= 0))
        reserve(E, 'self')
        E.ax_by_fn['other_name'].append(z3.ForAll([i], other(i) != E.str_lit('self'), patterns=[other(i)]))
        signatures(E)
        x = lambda i: SRef(X(i), Variable)
        def go():
            e = E.new_obj(Expr)
            def symbols(E, a, k, s):
                a, k = positional(('func',), a, k)
                form(len(a) == 1 and not k, 'seperate_symbols')
                E.prove('the symbols of this expression', E.truth(E.is_(a[0], e)))
                return (E.new_list(seq(nx, x).segs), P.list())
            asked = []
            def compiled(E, a, k, s):
                a, k = positional(('func', 'args'), a, k)
                form(len(a) == 2 and not k, 'sympy_to_py')
                E.prove('this expression is compiled', E.truth(E.is_(a[0], e)))
                order = SSeq(E.norm_segs(SSeq(E.iter_value(a[1]).segs)))
                u, w = z3.Ints('some_variable some_parameter')
                E.prove('as a function of its symbols', And(Implies(And(u >= 0, u < nx), E.seq_contains(order, x(u))), Implies(And(w >= 0, w < P.n), E.seq_contains(order, P.at(w))), real(E.seq_len(order)) == nx + P.n))
                def value(E, fn, a, k, s):
                    from pyvc.vals import SMap
                    if a:
                        segs = []
                        for y in a: segs += list(y.seq.segs) if type(y) is Star else [Unit(y)]
                        form(not k and s is None, 'the compiled function')
                        E.prove_value('every symbol takes its own value', SSeq(segs), E.map_seq(order, lambda o: given(o.t)))
                    else:
                        E.prove_value('every symbol takes its own value', SMap([('set', y, z) for y, z in k.items()] + (list(s.ops) if s is not None else [])), SMap(names()))
                    asked.append(1)
                    return z3.Real('value_of_the_expression')
                return SFun('compiled', value, ())
            def names():
                j, m = E.idx('i'), E.idx('p')
                return [('loop', nx, j, True, SStr(pname(X(j))), given(X(j))), ('loop', P.n, m, True, SStr(pname(P.fn(m))), given(P.fn(m)))]
            E.contracts[SU.seperate_symbols] = E.contracts[OP.seperate_symbols] = symbols
            E.contracts[SU.sympy_to_py] = E.contracts[OP.sympy_to_py] = compiled
            ops = names()
            q = E.idx('o')
            extra = ('loop', no, q, True, SStr(other(q)), other_value(q))
            vs, ps = seq(nx, lambda i: given(X(i))), seq(P.n, lambda i: given(P.fn(i)))
            a, s = {'by position': ([Star(SSeq(vs.segs + ps.segs))], None),
                    'by name': ([], SMap(ops)), 'by name, parameters first': ([], SMap(ops[::-1])),
                    'by name, with others': ([], SMap([extra] + ops)),
                    'variables by position': ([Star(vs)], SMap(ops[1:])),
                    'variables by position, with others': ([Star(vs)], SMap(ops[1:] + [extra]))}[style]
            r = E.call(METHOD[0], [e] + a, {}, s)
            E.prove('evaluated once', len(asked) == 1)
            E.prove_value('the value of the expression', r, z3.Real('value_of_the_expression'))
        run(E, 'Expr.__call__', go)
    return t

METHOD = [Expr.__call__]
for style in ('by position', 'by name', 'by name, parameters first', 'by name, with others', 'variables by position', 'variables by position, with others'):
    task('C21', f'calling {style}')(calling(style))


def refused(style):
    """A call that leaves a symbol without a value, or gives one twice or too many, is refused."""
    def t(E):
        P = Params(E)
        E.declare_injective(X)
        i = z3.Int('$i')
        nx = z3.Int('nx')
        for f, r in ((P.fn, 0), (X, 1)): E.ax_by_fn.setdefault(f.name(), []).append(z3.ForAll([i], role(f(i)) == r, patterns=[f(i)]))
        E.assume(z3.And(nx >= 0, P.n >= 1))
        reserve(E, 'self')
        signatures(E)
        def go():
            e = E.new_obj(Expr)
            def compiled(E, a, k, s):
                return SFun('compiled', lambda E, fn, a, k, s: z3.Real('value_of_the_expression'), ())
            E.contracts[SU.seperate_symbols] = E.contracts[OP.seperate_symbols] = lambda E, a, k, s: (E.new_list(seq(nx, lambda i: SRef(X(i), Variable)).segs), P.list())
            E.contracts[SU.sympy_to_py] = E.contracts[OP.sympy_to_py] = compiled
            j, m = E.idx('i'), E.idx('p')
            vs, ps = seq(nx, lambda i: pvalue(X(i))), seq(P.n, lambda i: pvalue(P.fn(i)))
            ops = [('loop', nx, j, True, SStr(pname(X(j))), pvalue(X(j))), ('loop', P.n, m, True, SStr(pname(P.fn(m))), pvalue(P.fn(m)))]
            a, s = {'the parameters missing, by name': ([], SMap(ops[:1])), 'one value too many': ([Star(SSeq(vs.segs + ps.segs + (Unit(z3.Real('superfluous')),)))], None)}[style]
            try: E.call(METHOD[0], [e] + a, {}, s)
            except Raised as x: E.prove('refused', E.exc_isinstance(x.val, TypeError))
            else: E.prove('refused', False)
        run(E, 'Expr.__call__', go)
    return t

for style in ('the parameters missing, by name', 'one value too many'): task('C21', f'refused: {style}')(refused(style))


# ---------------------------------------------------------------------- distributions
def distribution(name):
    """The expressions of symfit.distributions are the densities they are named after."""
    def t(E):
        import symfit.distributions as DI
        ex, sq = z3.Function('exp', R, R), z3.Function('sqrt', R, R)
        pi = z3.Real('pi')
        def fn1(f):
            def h(E, a, k, s):
                form(len(a) == 1 and not k and s is None, str(f))
                return f(real(E.force(a[0])))
            return h
        def go():
            E.contracts[sympy.exp] = fn1(ex)
            E.contracts[sympy.sqrt] = fn1(sq)
            x, y, mu, nu, s, t, rho = z3.Reals('x y mu_x mu_y sig_x sig_y rho')
            E.assume(z3.And(s != 0, rho > -1, rho < 1, pi > 3) if name == 'Gaussian' else z3.And(s > 0, t > 0, rho > -1, rho < 1, pi > 3))
            P = E.call(DI.Gaussian, [x, mu, s]) if name == 'Gaussian' else E.call(DI.Exp, [x, s]) if name == 'Exp' else E.call(DI.BivariateGaussian, [x, y, mu, nu, s, t, rho])
            E.prove_value('the density', P, {
                'Gaussian': lambda: ex(-(x - mu) ** 2 / (2 * s ** 2)) / sq(2 * pi * s ** 2),
                'Exp': lambda: s * ex(-s * x),
                'BivariateGaussian': lambda: ex(-((x - mu) ** 2 / s ** 2 - 2 * rho * (x - mu) * (y - nu) / (s * t) + (y - nu) ** 2 / t ** 2) / (2 * (1 - rho ** 2))) / (2 * pi * s * t * sq(1 - rho ** 2))}[name]())
        run(E, name, go)
    return t

for name in ('Gaussian', 'BivariateGaussian', 'Exp'): task('C21', f'distribution {name}')(distribution(name))


# ---------------------------------------------------------------------- printing
class Printer_(object): pass
class Node_(object): pass

# what a printed operand may look like: of any precedence, of at least that of a product, above a product, above a power
LOOSE, PRODUCT, FACTOR, POWER, ATOM = 'p{0} if q{0} else r{0}', 'p{0}*q{0}', 'p{0}**q{0}', 'p{0}**q{0}', 'p{0}(q{0})'


def printers(E):
    """Contract of sympy's printer: doprint gives text of any precedence; parenthesize(x, level) text that binds more
    tightly than `level` (strict: at least as tightly)."""
    from sympy.printing.precedence import PRECEDENCE
    def name(x): return E.force(E.getattr(x, 'label'))
    def loose(E, fn, a, k, s): return LOOSE.format(name(a[0]))
    def tight(E, fn, a, k, s):
        a, k = positional(('item', 'level', 'strict'), a, k)
        form(not k and s is None and len(a) in (2, 3), 'parenthesize')
        level = a[1] if len(a) == 2 or not a[2] else a[1] - 1
        shape = LOOSE if level < PRECEDENCE['Add'] else PRODUCT if level < PRECEDENCE['Mul'] else FACTOR if level < PRECEDENCE['Pow'] else ATOM
        return '(' + LOOSE.format(name(a[0])) + ')' if shape is ATOM else shape.format(name(a[0]))
    E.trusted.add('sympy.printing.CodePrinter')
    return E.new_obj(Printer_, doprint=SFun('doprint', loose), _print=SFun('_print', loose), parenthesize=SFun('parenthesize', tight),
                     _module_format=SFun('_module_format', lambda E, fn, a, k, s: a[0]))


def meaning(text, n):
    """How Python reads the text: the tree with the operands as leaves."""
    import ast as A
    def operand(t):
        for i in range(n):
            for shape in (LOOSE, PRODUCT, FACTOR, ATOM):
                if A.dump(t) == A.dump(A.parse(shape.format(i), mode='eval').body): return i
    def tree(t):
        i = operand(t)
        if i is not None: return i
        if isinstance(t, A.BinOp): return (type(t.op).__name__, tree(t.left), tree(t.right))
        if isinstance(t, A.Call): return (A.unparse(t.func),) + tuple(tree(x) for x in t.args)
        return A.unparse(t)
    try: return tree(A.parse(text, mode='eval').body)
    except SyntaxError: return 'not an expression'


def flat(op, t):
    return flat(op, t[1]) + flat(op, t[2]) if isinstance(t, tuple) and t[0] == op else [t]


def printing(what, n):
    """The text printed for an operation means that operation on its operands, however these are printed."""
    def t(E):
        from symfit.core.printing import HadamardProduct, HadamardPower, Inverse
        cls = {'product': HadamardProduct, 'power': HadamardPower, 'inverse': Inverse}[what]
        def go():
            xs = tuple(E.new_obj(Node_, label=i) for i in range(n))
            node = E.new_obj(Node_, args=xs, **({'arg': xs[0]} if what == 'inverse' else {'base': xs[0], 'exp': xs[1]} if what == 'power' else {}))
            r = E.call(cls._numpycode, [node, printers(E)])
            form(isinstance(r, str), 'text')
            m = meaning(r, n)
            if what == 'product':
                # element-wise products may be taken in any order
                ok = sorted(map(str, flat('Mult', m))) == [str(i) for i in range(n)] or nested(m, ('numpy.multiply', 'numpy.prod'), n)
            elif what == 'power': ok = m == ('Pow', 0, 1) or m == ('numpy.power', 0, 1)
            else: ok = m == ('numpy.linalg.inv', 0)
            E.prove('the text means the operation on all its operands', ok)
        run(E, f'{cls.__name__}._numpycode', go)
    return t


def nested(m, fns, n):
    def leaves(t): return sum((leaves(x) for x in t[1:]), []) if isinstance(t, tuple) and t[0] in fns[:1] else [t]
    return sorted(map(str, leaves(m))) == [str(i) for i in range(n)]


for n in (2, 3, 4): task('C21', f'printing a product of {n}')(printing('product', n))
task('C21', 'printing a power')(printing('power', 2))
task('C21', 'printing an inverse')(printing('inverse', 1))


factor = z3.Function('text_of_a_factor', Obj, I)
OP_ = z3.Function('operand', I, Obj)


def product(E):
    """A product of any number of operands: all of them, in parentheses where they bind less tightly, joined by *."""
    from sympy.printing.precedence import PRECEDENCE
    from symfit.core.printing import HadamardProduct
    E.declare_injective(OP_)
    n = z3.Int('n_operands')
    E.assume(n >= 2)
    joined = []
    def tight(E, fn, a, k, s):
        a, k = positional(('item', 'level', 'strict'), a, k)
        form(not k and s is None and len(a) in (2, 3), 'parenthesize')
        level = a[1] if len(a) == 2 or not a[2] else a[1] - 1
        return SStr(factor(a[0].t)) if level >= PRECEDENCE['Mul'] else SStr(z3.Function('text_of_any_precedence', Obj, I)(a[0].t))
    loose = lambda E, fn, a, k, s: SStr(z3.Function('text_of_any_precedence', Obj, I)(a[0].t))
    def join(E, sep, xs):
        joined.append((sep, xs))
        return SStr(z3.Int('joined_text'))
    def go():
        del joined[:]
        E.join_hook = join
        E.trusted.add('sympy.printing.CodePrinter')
        pr = E.new_obj(Printer_, doprint=SFun('doprint', loose), _print=SFun('_print', loose), parenthesize=SFun('parenthesize', tight))
        node = E.new_obj(Node_, args=seq(n, lambda i: SRef(OP_(i), Node_)))
        r = E.call(HadamardProduct._numpycode, [node, pr])
        form(len(joined) == 1 and isinstance(r, SStr) and z3.eq(r.t, z3.Int('joined_text')), 'text joined')
        E.prove('joined as a product', joined[0][0].strip() == '*')
        for g in E.norm_segs(joined[0][1]):
            known = type(g) is Comp and isinstance(g.body, SStr) and str(g.body.t.decl()) in ('text_of_a_factor', 'text_of_any_precedence')
            form(known, 'text joined')
        E.prove_value('every operand, as a factor', joined[0][1], seq(n, lambda i: SStr(factor(OP_(i)))))
    run(E, 'HadamardProduct._numpycode', go)

task('C21', 'printing a product of any number')(product)


# ---------------------------------------------------------------------- the symbols of an expression
F_ = z3.Function('free_symbol', I, Obj)
ident = z3.Function('is_identifier', I, B)


def separated(E):
    """seperate_symbols: the variables and the parameters of the expression, each once, in alphabetical order."""
    from pyvc.ext import sorted_set
    E.declare_injective(F_)
    n = z3.Int('n_free')
    E.assume(n >= 0)
    # kinds of symbols: 0 parameters, 1 variables (any other expression), 2 indices
    def kind(E, r, cls):
        if cls is Parameter: return role(r.t) == 0
        if cls is sympy.Idx: return role(r.t) == 2
        if cls in (Expr, sympy.Basic, sympy.Symbol, Argument): return True
        if cls is sympy.MatrixExpr: return False
        if cls is Variable: return role(r.t) == 1
    E.schema[Argument] = dict(E.schema[Argument], **{'$isinstance': kind})
    i = z3.Int('$i')
    E.ax_by_fn.setdefault('free_symbol', []).append(z3.ForAll([i], z3.And(role(F_(i)) >= 0, role(F_(i)) <= 2), patterns=[F_(i)]))
    E.identifier = lambda v: ident(v.t)
    E.sort_hook = lambda E, s, kf, reverse: None if reverse else sorted_set(E, s.segs, SFun('key', lambda E, f, a, k, st: kf(a[0])))
    def go():
        e = E.new_obj(Node_, free_symbols=E.new_set(seq(n, lambda i: SRef(F_(i), Argument)).segs),
                      atoms=SFun('atoms', lambda E, fn, a, k, s: E.new_set([])))
        r = E.call(SU.seperate_symbols, [e])
        vs, ps = (SSeq(E.iter_value(E.seq_get(E.as_seq(r), q)).segs) for q in (0, 1))
        w = z3.Int('some_symbol')
        for name, xs, code in (('variables', vs, 1), ('parameters', ps, 0)):
            if E.branch(z3.And(w >= 0, w < n)):
                o = F_(w)
                want = z3.And(role(o) == code, ident(pname(o)))
                E.prove(f'the {name} are those of the expression', z3.And(z3.Implies(want, tobool(E.seq_contains(xs, SRef(o, Argument)))), z3.Implies(tobool(E.seq_contains(xs, SRef(o, Argument))), want)))
            a, b = z3.Ints('earlier later')
            if E.branch(z3.And(a >= 0, a < b, b < real(E.seq_len(xs)))):
                p, q = E.force(E.seq_get(xs, a)), E.force(E.seq_get(xs, b))
                E.prove(f'the {name} are in alphabetical order, each once', z3.And(le(E, p, q), p.t != q.t))
    def le(E, p, q):
        from pyvc.ext import order
        return tobool(order(E, ast.LtE, SStr(pname(p.t)), SStr(pname(q.t))))
    run(E, 'seperate_symbols', go)

task('C21', 'the symbols of an expression')(separated)


# ---------------------------------------------------------------------- compiling
A_ = z3.Function('argument', I, Obj)
NEW = z3.Function('variable_named', I, Obj)
LN = z3.Function('name_in_the_function', I, I)


def compiling():
    """sympy_to_py: a function of exactly the symbols given, in their order and by their own names, computing the
    expression; derivatives are arguments under their names.  (lambdify keeps the names: dummify is off.)"""
    def t(E):
        E.declare_injective(A_); E.declare_injective(LN)
        n = z3.Int('n_arguments')
        E.assume(n >= 1)
        i, s = z3.Ints('$i $s')
        E.ax_by_fn.setdefault('variable_named', []).append(z3.ForAll([s], z3.And(pname(NEW(s)) == s, role(NEW(s)) == 0), patterns=[NEW(s)]))
        def kind(E, r, cls):
            if cls is sympy.Derivative: return role(r.t) == 1
        E.schema[Argument] = dict(E.schema[Argument], **{'$isinstance': kind})
        arg = lambda i: SRef(A_(i), Argument)
        def go():
            E.ax_by_fn.setdefault('name_in_the_function', []).append(z3.ForAll([i], LN(i) == pname(A_(i)), patterns=[LN(i)]))
            replaced = E.new_obj(Node_)
            def xreplace(E, fn, a, k, st):
                form(len(a) == 1 and not k, 'xreplace')
                j = E.idx('j')
                E.prove_value('derivatives are replaced by variables of their names', E.as_map(a[0]),
                              SMap([('loop', n, j, role(A_(j)) == 1, arg(j), SRef(NEW(pname(A_(j))), Argument))]))
                return replaced
            e = E.new_obj(Node_, xreplace=SFun('xreplace', xreplace))
            ps = lambda: E.new_dict([('loop', n, (j := E.idx('j')), True, SStr(LN(j)), SRef(z3.Function('signature_parameter', I, Obj)(j), inspect.Parameter))], collections.OrderedDict)
            def value(E, fn, a, k, st): return z3.Real('value')
            fun = SFun('lambdified', value, ())
            def lambdify(E, a, k, st):
                a, k = positional(('args', 'expr', 'modules', 'printer', 'use_imps', 'dummify'), a, k)
                form(len(a) == 2 and set(k) <= {'dummify', 'modules', 'cse'} and st is None, 'lambdify')
                E.prove('the expression is compiled', E.truth(E.is_(a[1], replaced)))
                E.prove_value('as a function of the symbols, in their order', SSeq(E.iter_value(a[0]).segs),
                              seq(n, lambda j: ite(role(A_(j)) == 1, SRef(NEW(pname(A_(j))), Argument), arg(j))))
                return fun
            E.contracts[SU.lambdify] = lambdify
            E.contracts[SU.Variable] = lambda E, a, k, st: SRef(NEW(E.force(a[0]).t), Argument)
            E.contracts[inspect.signature] = lambda E, a, k, st: E.new_obj(Node_, parameters=ps())
            E.trusted.add('sympy.lambdify')
            r = E.call(SU.sympy_to_py, [e, E.new_list(seq(n, arg).segs)])
            E.prove('the compiled function', r is fun)
        run(E, 'sympy_to_py', go)
    return t

task('C21', 'compiling')(compiling())
