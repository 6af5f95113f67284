"""C14: a chain hands the answer of every minimizer to the next, with exactly the options given under its name."""
import inspect
from contracts.minim import *
from pyvc.engine import Rec
from pyvc.vals import BaseMap

Mi = z3.Function('minimizer', I, Obj)
cname = z3.Function('class_name', Obj, I)
On = z3.Function('option_of', I, Obj)
sname = lambda k: pname(On(k))              # the name under which the k-th minimizer takes its options
given = z3.Function('options_given', I, B)
nopt = z3.Function('n_options', I, I)
oname = z3.Function('option_key', I, I, I)
oval = z3.Function('option_value', I, I, Obj)
found = z3.Function('value_found', Obj, I, R)
nit = z3.Function('n_iterations', Obj, I)
counts = z3.Function('reports_iterations', Obj, B)
guess = z3.Function('guess', I, R)
earlier = z3.Function('used_before', Obj, B)


class Stub(M.BaseMinimizer):
    """Any minimizer: execute is known by its contract only."""
    __pyvc__ = True
    def execute(self, **options): raise NotImplementedError


class InspParam: pass


class Chain:
    def __init__(self, E):
        self.E, self.P, self.N = E, Params(E), z3.Int('n_minimizers')
        E.assume(self.N >= 1)
        E.declare_injective(Mi)
        k = z3.Int('$k')
        E.declare_injective(On)
        reserve(E, 'self')
        E.declare_injective(oname)
        E.ax_by_fn.setdefault('n_options', []).append(z3.ForAll([k], nopt(k) >= 0, patterns=[nopt(k)]))
        E.schema[Stub] = {'_initial_guesses': lambda E, r: SIte(earlier(r.t), E.empty, MISSING), '__class__': lambda E, r: SFun('class', None, (), attrs={'__name__': SStr(cname(r.t))})}
        self.log = None

    def minims(self): return self.E.new_list([comp(self.N, lambda k: SRef(Mi(k), Stub))])

    def options(self, k):
        """The dictionary of options given for the k-th minimizer, one object per k."""
        E = self.E
        j = E.idx('o')
        E.heap[self.oid] = Rec('dict', dict, {'$c': self.optmap(self.kvar)}, (self.kvar,))
        return H(self.oid, (k,))

    def optmap(self, k):
        j = self.E.idx('o')
        return SMap([('loop', nopt(k), j, True, SStr(oname(j, k)), SRef(oval(k, j), object))])


@task('C14', 'execute')
def _(E):
    C = Chain(E)
    P, N = C.P, C.N
    hasguess = z3.Bool('has_guess')
    C.oid, C.kvar = E.newid(), z3.Int('k!opt')
    def go():
        log = E.new_list()
        def execute(E, a, k, s):
            me = a[0]
            E.call(METH['append'], [log, (me, E._getattr(me, 'initial_guesses'), E.new_dict([('set', n, v) for n, v in k.items()] + (list(s.ops) if s is not None else [])))])
            i = E.idx('i')
            return E.new_obj(FR.FitResults, params=E.new_dict([('loop', P.n, i, True, SStr(pname(P.fn(i))), found(me.t, i))], collections.OrderedDict),
                             minimizer_output=E.new_dict([('loop', z3.IntVal(1), i, counts(me.t), 'nit', nit(me.t)), ('set', 'fun', z3.Function('fun', Obj, R)(me.t))]))
        E.contracts[Stub.execute] = execute
        i, k = E.idx('i'), E.idx('k')
        ip = lambda k: SFun('inspect.Parameter', None, (), attrs={'name': SStr(sname(k)), 'default': E.empty})
        E.empty = E.new_dict()
        def bind(E, a, kw, s):
            ops = [('set', n, v) for n, v in kw.items()] + (list(s.ops) if s is not None else [])
            form(len(a) == 1, 'Signature.bind')
            return E.new_obj(inspect.BoundArguments, arguments=E.new_dict(ops, dict))
        E.contracts[inspect.Signature.bind] = bind
        E.contracts[inspect.Signature.parameters.fget] = lambda E, a, k, s: E.getf(a[0], 'parameters')
        E.trusted.update(['inspect.Signature.bind'])
        sig = E.new_obj(inspect.Signature, parameters=E.new_dict([('loop', N, k, True, SStr(sname(k)), ip(k))], collections.OrderedDict))
        free = E.new_list(P.freeseq().segs)
        ch = E.new_obj(M.ChainedMinimizer, minimizers=C.minims(), parameters=P.list(), params=free, __signature__=sig,
                       _initial_guesses=SIte(hasguess, E.new_list([comp(P.nfree(), lambda i: guess(i))]), MISSING))
        q = E.idx('q')
        r = E.call(Bound(M.ChainedMinimizer.execute, ch), [], {}, SMap([('loop', N, q, given(q), SStr(sname(q)), C.options(q))]))
        entries = E.rec(log).f['$c']
        E.prove_value('every minimizer is run once', E.seq_len(entries), N)
        k = z3.Int('k'); E.assume(z3.And(k >= 0, k < N))
        me, start, opts = [E.seq_get(E.as_seq(E.seq_get(entries, k)), z) for z in range(3)]
        E.prove_value('in the order of the chain', me, SRef(Mi(k), Stub))
        if E.branch(given(k)): E.prove_value('with the options given under its name', opts, E.new_dict(C.optmap(k).ops))
        else: E.prove_value('with no options when none were given', opts, E.new_dict())
        start = E.as_seq(E.iter_value(E.force(start)))
        if E.branch(k == 0):
            if E.branch(hasguess): E.prove_value('the first starts from the guesses set', start, seq(P.nfree(), lambda i: guess(i)))
            else: E.prove_value('the first starts from the initial values', start, P.freeseq(lambda i: pvalue(P.fn(i))))
        else: E.prove_value('the next starts from the values its predecessor found', start, P.freeseq(lambda i: found(Mi(k - 1), i)))
        last = Mi(N - 1)
        i = E.idx('i')
        E.prove_value('the parameters are those of the last', E.getattr(r, 'params'), E.new_dict([('loop', P.n, i, True, SStr(pname(P.fn(i))), found(last, i))], collections.OrderedDict))
        out = E.getattr(r, 'minimizer_output')
        E.prove_value('the minimum is that of the last', E.getitem(out, 'fun'), z3.Function('fun', Obj, R)(last))
        q = E.idx('q')
        E.prove_value('the number of iterations is the total', E.getattr(r, 'iterations'), E.sum_term(N, q, counts(Mi(q)), nit(Mi(q))))
    METH = {'append': SFun('append', lambda E, f, a, k, s: __import__('pyvc.ext', fromlist=['x']).METHODS[('list', 'append')](E, *a))}
    run(E, 'ChainedMinimizer.execute', go)


kname = z3.Int('a_class_name')
named = lambda E, n, s: z3.substitute(E.count(n, Jv, cname(Mi(Jv)) == kname), (kname, s))      # how many of the first n minimizers are of that class
occ = lambda E, k: named(E, k + 1, cname(Mi(k)))        # position of the k-th minimizer among those of its class
Jv = z3.Int('$earlier')
numbered = z3.Function('numbered', I, I, I)          # '{}_{}'.format(name, i)


@task('C14', 'names of the options')
def _(E):
    """The k-th minimizer takes its options under its class name, numbered from the second of that class on; every minimizer has its own place, in the order of the chain."""
    C = Chain(E)
    N = C.N
    given_once = []
    def go():
        build = lambda E, parts: SStr(numbered(parts[0].t, real(parts[2]))) if len(parts) == 3 and isinstance(parts[0], SStr) and parts[1] == '_' and isz(parts[2]) and parts[2].is_int() else None
        E.str_build = build
        def left(t):
            return SMap([('base', BaseMap('left', lambda E, key, t: (named(E, N, key.t) > 0, named(E, N - t, key.t)), data=(t,), domain=SStr))])
        E.invariants = {'_make_signature': {'*': left}}
        def signature(E, a, k, s):
            d = dict(zip(('parameters',), a)); d.update(k)
            return E.new_obj(inspect.Signature, parameters=E.new_list(E.norm_segs(E.as_seq(E.iter_value(d['parameters'])))))
        def parameter(E, a, k, s):
            d = dict(zip(('name', 'kind'), a)); d.update(k)
            return E.new_obj(InspParam, **d)
        E.contracts[inspect.Signature] = signature
        E.contracts[inspect.Parameter] = parameter
        E.trusted.update(['inspect.Signature', 'inspect.Parameter'])
        minims = C.minims()
        obj = E.new_obj(O.LeastSquares, model=E.new_obj(MO.Model, params=C.P.list()))
        ch = E.call(M.ChainedMinimizer, [obj, C.P.list()], {'minimizers': minims})
        E.prove_value('the chain in the order given', E.getattr(ch, 'minimizers'), minims)
        r = E.getattr(ch, '__signature__')
        ps = E.getf(r, 'parameters')
        E.prove_value('a place for every minimizer', E.seq_len(E.as_seq(E.iter_value(ps))), N)
        k = z3.Int('k'); E.assume(z3.And(k >= 0, k < N))
        p = E.force(E.getitem(ps, k))
        nm = E.getattr(p, 'name')
        me = cname(Mi(k))
        E.prove_value('named after the class, numbered from the second on', nm, SStr(z3.If(occ(E, k) == 1, me, numbered(me, occ(E, k)))))
        E.prove('taken by name', E.getattr(p, 'kind') is inspect.Parameter.KEYWORD_ONLY)
        E.prove_value('no options by default', E.getattr(p, 'default'), E.new_dict())
    run(E, 'ChainedMinimizer.__init__/_make_signature', go)
