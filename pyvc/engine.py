"""pyvc: a deductive verifier for a subset of Python.

The bodies of the functions in /repo are parsed from the current source on every run and executed
symbolically, path by path, over unbounded sequences, mappings and arrays.  Loops are replaced by their
inductive summary (loops.py); calls to functions under contract are replaced by their contract; every
remaining question is an obligation discharged by z3 (cvc5 as second back end).
"""
import operator, ast, builtins, inspect, os, sys, time, types, collections, functools
from .vals import *
from . import vals
import numpy as np

REPO = os.environ.get('PYVC_REPO', '/repo')


class PathDead(Exception):
    pass


class Raised(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, val): self.val = val
    def __str__(self): return f'Raised({self.val!r})'


class Break(Exception): pass
class Continue(Exception): pass
class Return(Exception):
    def __init__(self, v): self.v = v


class Star:
    """A symbolic *args tail in a call."""
    __slots__ = ('seq',)
    def __init__(self, seq): self.seq = seq


class Path:
    def __init__(self, pc, kind, val, heap): self.pc, self.kind, self.val, self.heap = pc, kind, val, heap
    def __repr__(self): return f'<{self.kind} {self.val!r} if {self.pc}>'


class Obligation:
    def __init__(self, name, ok, how, secs, detail=''):
        self.name, self.ok, self.how, self.secs, self.detail = name, ok, how, secs, detail


_src_cache = {}

def file_functions(fn):
    if fn not in _src_cache:
        with open(fn) as f: src = f.read()
        tree = ast.parse(src)
        table = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                lines = {node.lineno}
                for d in getattr(node, 'decorator_list', []):
                    lines.add(d.lineno)
                table.setdefault(min(lines), []).append(node)
        _src_cache[fn] = (src, table)
    return _src_cache[fn]


def function_node(func):
    code = func.__code__
    src, table = file_functions(code.co_filename)
    cands = table.get(code.co_firstlineno, [])
    for n in cands:
        if getattr(n, 'name', '<lambda>') == code.co_name:
            return n
    raise Unsupported(f'no source for {func!r}')


def is_engine(v):
    return isinstance(v, (z3.ExprRef, SStr, SRef, SIte, H, Havoc, SSeq, SMap, STensor, Closure, Bound, Super, SFun, Last, Undef))


GHOSTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'ghosts.py')    # specifications written in Python


def in_repo(func):
    code = getattr(func, '__code__', None)
    return code is not None and (code.co_filename.startswith(REPO + os.sep) or code.co_filename == GHOSTS)


_assigned_cache = {}

def local_names(node):
    """Names local to a function node."""
    key = id(node)
    if key in _assigned_cache:
        return _assigned_cache[key][1]
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: out.add(x.arg)
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            visit(c)
    if isinstance(node, ast.FunctionDef):
        for st in node.body:
            visit(ast.Module(body=[st], type_ignores=[]))
    _assigned_cache[key] = (node, out)
    return out


from .loops import LoopMixin
from .seqs import SeqMixin
from .solve import SolveMixin
from . import ext as _ext


class Engine(LoopMixin, SeqMixin, SolveMixin):
    def __init__(self, timeout=8.0):
        self.heap = {}
        self.pc = []
        self.active = []
        self.ctr = 0
        self.trace, self.pos, self.alts = [], 0, None
        self.contracts = {}      # function object -> handler(E, args, kwargs, star)
        self.schema = {}         # class -> {attr: fn(E, ref)}
        self.obligations = []
        self.covers = {}
        self.functions = set()   # functions whose bodies were interpreted
        self.used_contracts = set()
        self.statics = {}        # (class, attribute) -> stand-in for mutable class-level state
        self.trusted = set()     # external functions used through a model
        self.timeout = timeout
        self.nsolver, self.tsolver = 0, 0.0
        self.max_paths = 400
        self.depth = 0
        self.lits = {}
        self.axioms = []
        self.init_solve()

    # ------------------------------------------------------------------ fresh symbols and heap
    def newid(self):
        self.ctr += 1
        return self.ctr

    def const(self, base, sort):
        return z3.Const(f'{base}!{self.newid()}', sort)

    def fresh(self, base, sort):
        """A fresh symbol; inside generic iterations it is a function of the active indices."""
        n = self.newid()
        if not self.active:
            return z3.Const(f'{base}!{n}', sort)
        f = z3.Function(f'{base}!{n}', *[a.sort() for a in self.active], sort)
        return f(*self.active)

    def idx(self, base='i'):
        return z3.Int(f'{base}!{self.newid()}')

    def alloc(self, rec):
        n = self.newid()
        idx = tuple(self.active)
        rec.ivars = idx
        self.heap[n] = rec
        return H(n, idx)

    def family(self, rec, *ivars):
        """One object per value of ivars (for specifications); returns index -> handle."""
        n = self.newid()
        rec.ivars = tuple(ivars)
        self.heap[n] = rec
        return lambda *idx: H(n, tuple(idx))

    def rec(self, h):
        r = self.heap[h.id]
        for idx, rr in reversed(r.over):
            if all(self.proves_eq(a, b) for a, b in zip(idx, h.idx)):
                return rr
            if not all(self.proves_neq(a, b) for a, b in zip(idx, h.idx)):
                # may alias
                c = And(*[a == b for a, b in zip(idx, h.idx)])
                if self.branch(c):
                    return rr
        if not r.ivars:
            return r
        prs = [(a, b) for a, b in zip(r.ivars, h.idx) if not a.eq(b)]
        if not prs:
            return r
        return Rec(r.kind, r.cls, {k: subst(v, prs) for k, v in r.f.items()}, h.idx, (), r.tag)

    def store(self, h, rec):
        if h.id in self.frozen: raise Unsupported('update of an object kept from an earlier iteration')
        r = self.heap[h.id]
        if all(a.eq(b) for a, b in zip(r.ivars, h.idx)) and len(r.ivars) == len(h.idx) and not r.over:
            self.heap[h.id] = Rec(rec.kind, rec.cls, rec.f, r.ivars, (), rec.tag)
        else:
            over = tuple((i, x) for i, x in r.over if not all(a.eq(b) for a, b in zip(i, h.idx)))
            self.heap[h.id] = Rec(r.kind, r.cls, r.f, r.ivars, over + ((h.idx, Rec(rec.kind, rec.cls, rec.f, (), (), rec.tag)),), r.tag)

    def getf(self, h, name, default=MISSING):
        return self.rec(h).f.get(name, default)

    def setf(self, h, name, v):
        self.store(h, self.rec(h).set(name, v))

    def new_list(self, segs=(), cls=list):
        return self.alloc(Rec('list', cls, {'$c': SSeq(segs)}))

    def list_of(self, vs):
        return self.new_list([Unit(v) for v in vs])

    def new_dict(self, ops=(), cls=dict):
        return self.alloc(Rec('dict', cls, {'$c': SMap(ops)}))

    def new_obj(self, cls, **f):
        return self.alloc(Rec('obj', cls, f))

    def new_set(self, segs=()):
        return self.alloc(Rec('set', set, {'$c': SSeq(segs)}))

    # ------------------------------------------------------------------ paths
    def assume(self, c):
        if c is True: return
        if c is False: raise PathDead()
        self.pc.append(c)

    def branch(self, c):
        c = self.truth(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.trace):
            d, _ = self.trace[self.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(Not(c)) if ft else True
            if ft and ff:
                d = True
                self.trace.append((True, True))
            elif ft:
                d = True; self.trace.append((True, False))
            else:
                if not self.feasible_strict():
                    raise PathDead()
                d = False; self.trace.append((False, False))
        self.pos += 1
        self.pc.append(c if d else Not(c))
        return d

    def snapshot(self):
        return dict(self.heap), list(self.pc), list(self.active)

    def restore(self, s):
        self.heap, self.pc, self.active = dict(s[0]), list(s[1]), list(s[2])

    def explore(self, thunk):
        outer = (self.trace, self.pos)
        base = self.snapshot()
        nbase = len(self.pc)
        stack, res = [[]], []
        try:
            while stack:
                self.restore(base)
                pre = stack.pop()
                self.trace, self.pos = list(pre), 0
                depth = self.depth
                kind, val = None, None
                try:
                    val = thunk(); kind = 'normal'
                except PathDead: kind = 'dead'
                except Raised as e: kind, val = 'raise', e.val
                except Return as e: kind, val = 'return', e.v
                except Break: kind = 'break'
                except Continue: kind = 'normal'
                except Unsupported:
                    if self.feasible_long():
                        raise
                    kind = 'dead'
                self.depth = depth
                tr = self.trace
                for k in range(len(pre), len(tr)):
                    if tr[k][1]:
                        stack.append(tr[:k] + [(False, False)])
                if kind == 'raise' and not self.feasible_long():
                    kind = 'dead'
                if kind != 'dead':
                    res.append(Path(self.pc[nbase:], kind, val, self.heap))
                if len(res) + len(stack) > self.max_paths:
                    raise Unsupported('too many paths')
        finally:
            self.trace, self.pos = outer
            self.restore(base)
        return res

    def force(self, v):
        """Resolve conditional values by case split."""
        while True:
            if isinstance(v, SIte):
                v = v.a if self.branch(v.c) else v.b
            elif isinstance(v, Last):
                v = self.read_last(v)
            elif isinstance(v, Havoc):
                raise Unsupported(f'loop-carried value {v.cell}')
            else:
                return v

    def read_last(self, v):
        c = self.branch(v.n > 0) if v.cond is True else None
        if v.cond is True:
            return subst(v.body, [(v.var, z3.simplify(v.n - 1))]) if c else v.init
        r = self.count(v.n, v.var, v.cond)
        if self.branch(r > 0):
            k = self.sel(v.n, v.var, v.cond, r - 1)
            return subst(v.body, [(v.var, k)])
        return v.init

    # ------------------------------------------------------------------ truth, comparison
    def truth(self, v):
        """Boolean (Python bool or z3 Bool) of a value."""
        if isinstance(v, (bool, z3.BoolRef)): return v
        if isinstance(v, (SIte, Last)): v = self.force(v); return self.truth(v)
        if isinstance(v, z3.ArithRef): return v != 0
        if isinstance(v, SSeq): return self.seq_len(v) != 0 if isz(self.seq_len(v)) else self.seq_len(v) != 0
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind in ('list', 'set'):
                return self.truth(r.f['$c'])
            if r.kind == 'dict':
                n = self.map_len(r.f['$c'])
                return n != 0
            if r.kind == 'obj':
                for nm in ('__bool__', '__len__'):
                    m = self.class_attr(r.cls, nm)
                    if m is not MISSING and m is not None:
                        return self.truth(self.call(self.getattr(v, nm), []))
                return True
            return True
        if isinstance(v, (Closure, Bound, SFun, Super)): return True
        if isinstance(v, SRef):
            if v.cls is object: return z3.Function('truthy', Obj, z3.BoolSort())(v.t)      # nothing is known of it
            if any(getattr(v.cls, nm, None) for nm in ('__bool__', '__len__')):
                raise Unsupported(f'truth value of a {v.cls.__name__} known by its contract only')
            return True
        if isinstance(v, STensor):
            if not v.axes: return self.truth(v.body)
            raise Unsupported('truth value of an array')
        if isinstance(v, SStr): return v.t != self.str_lit('')
        if is_engine(v): raise Unsupported(f'truth of {v!r}')
        return bool(v)

    def str_lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Int('str:' + s)
        return self.lits[s]

    def eq(self, a, b):
        """a == b as a Python bool / z3 Bool."""
        if same(a, b): return True
        if isinstance(a, (SIte, Last)) or isinstance(b, (SIte, Last)):
            if isinstance(a, SIte): return self.ite_bool(a.c, lambda: self.eq(a.a, b), lambda: self.eq(a.b, b))
            if isinstance(b, SIte): return self.ite_bool(b.c, lambda: self.eq(a, b.a), lambda: self.eq(a, b.b))
            return self.eq(self.force(a), self.force(b))
        if isinstance(a, STensor) or isinstance(b, STensor):
            if (a is None or b is None): return False
            return _ext.elementwise2(self, lambda x, y: tobool(self.eq(x, y)), a, b)
        if isnum(a) and isnum(b) and (isz(a) or isz(b)):
            if isinstance(a, float) and a in (float('inf'), float('-inf')) or isinstance(b, float) and b in (float('inf'), float('-inf')):
                return False
            return real(a) == real(b)
        if isbool(a) and isbool(b) and (isz(a) or isz(b)): return tobool(a) == tobool(b)
        if (isz(a) and isnum(b)) or (isnum(a) and isz(b)) or (isbool(a) and isnum(b)) or (isnum(a) and isbool(b)):
            return real(a) == real(b)
        if isinstance(a, SStr) and isinstance(b, SStr): return a.t == b.t
        if isinstance(a, SStr) and isinstance(b, str): return a.t == self.str_lit(b)
        if isinstance(b, SStr) and isinstance(a, str): return self.str_lit(a) == b.t
        if isinstance(a, SRef) and isinstance(b, SRef): return a.t == b.t
        if isinstance(a, H) and isinstance(b, H):
            if a.id == b.id and a.idx:
                same_idx = And(*[x == y for x, y in zip(a.idx, b.idx)])
            ra, rb = self.rec(a), self.rec(b)
            if ra.kind == 'obj' or rb.kind == 'obj':
                m = self.class_attr(ra.cls, '__eq__') if ra.kind == 'obj' else MISSING
                if m is not MISSING and isinstance(m, types.FunctionType) and in_repo(m):
                    return self.truth(self.call(Bound(m, a), [b]))
                m = self.class_attr(rb.cls, '__eq__') if rb.kind == 'obj' else MISSING
                if m is not MISSING and isinstance(m, types.FunctionType) and in_repo(m):
                    return self.truth(self.call(Bound(m, b), [a]))
                if a.id == b.id and a.idx: return same_idx
                return False
            if ra.kind == 'list' and rb.kind == 'list':
                return self.seq_eq(ra.f['$c'], rb.f['$c'])
            if ra.kind == 'dict' and rb.kind == 'dict':
                return self.map_eq(ra.f['$c'], rb.f['$c'])
            if ra.kind == 'set' and rb.kind == 'set':
                raise Unsupported('set equality')
            return False
        if isinstance(a, (SSeq, tuple)) and isinstance(b, (SSeq, tuple)):
            return self.seq_eq(self.as_seq(a), self.as_seq(b))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return And(self.eq(a.fn, b.fn), self.is_(a.self, b.self))
        if is_engine(a) or is_engine(b):
            ta, tb = self.kind_of(a), self.kind_of(b)
            if ta != tb: return False
            raise Unsupported(f'comparison of {a!r} and {b!r}')
        r = (a == b)
        if isinstance(r, np.ndarray): raise Unsupported('array comparison')
        return bool(r) if r is not NotImplemented else False

    def kind_of(self, v):
        if isinstance(v, (str, SStr)): return 'str'
        if v is None: return 'None'
        if isnum(v): return 'num'
        if isbool(v): return 'num'
        if isinstance(v, SRef): return 'ref'
        if isinstance(v, H): return self.heap[v.id].kind
        if isinstance(v, (tuple, SSeq)): return 'tuple'
        if isinstance(v, (Closure, Bound, SFun)): return 'fn'
        return type(v).__name__

    def ite_bool(self, c, fa, fb):
        # evaluated under the condition without forking
        n = len(self.pc)
        self.pc.append(tobool(c)); a = fa(); del self.pc[n:]
        self.pc.append(tobool(Not(c))); b = fb(); del self.pc[n:]
        return Or(And(c, a), And(Not(c), b))

    def is_(self, a, b):
        if isinstance(a, SIte): return self.ite_bool(a.c, lambda: self.is_(a.a, b), lambda: self.is_(a.b, b))
        if isinstance(b, SIte): return self.ite_bool(b.c, lambda: self.is_(a, b.a), lambda: self.is_(a, b.b))
        if isinstance(a, Last): return self.is_(self.force(a), b)
        if isinstance(b, Last): return self.is_(a, self.force(b))
        if a is None or b is None:
            if isinstance(a, Havoc) or isinstance(b, Havoc): raise Unsupported('havoc is None')
            return a is b
        if isinstance(a, H) and isinstance(b, H):
            if a.id != b.id: return False
            return And(*[x == y for x, y in zip(a.idx, b.idx)])
        if isinstance(a, SRef) and isinstance(b, SRef): return a.t == b.t
        if isbool(a) and isbool(b): return self.eq(a, b)
        if isinstance(a, SRef) or isinstance(b, SRef): return False
        if is_engine(a) or is_engine(b):
            if same(a, b): return True
            if isinstance(a, (H,)) or isinstance(b, (H,)): return False
            if isnum(a) and isnum(b): raise Unsupported('identity of numbers')
            if isinstance(a, (Bound, Closure, SFun, STensor)) or isinstance(b, (Bound, Closure, SFun, STensor)):
                return False
            if type(a) is type(NotImplemented) or type(b) is type(NotImplemented) or a is Ellipsis or b is Ellipsis: return False
            raise Unsupported(f'identity of {a!r}, {b!r}')
        if isnum(a) and isnum(b) and not (a is b):
            # identity of equal Python integers above the small-int cache is False in CPython
            return a is b
        return a is b

    # ------------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def cls_of(self, v):
        if isinstance(v, H): return self.heap[v.id].cls
        if isinstance(v, SRef): return v.cls
        if isinstance(v, (SStr,)): return str
        if isinstance(v, SSeq): return tuple
        if isinstance(v, STensor): return np.ndarray
        if isinstance(v, (Closure, Bound)): return types.FunctionType
        if isinstance(v, SFun): return v.cls or types.FunctionType
        if isinstance(v, z3.BoolRef): return bool
        if isinstance(v, z3.ArithRef): return int if v.is_int() else float
        return type(v)

    def getattr(self, v, name, default=MISSING):
        v = self.force(v)
        try:
            return self._getattr(v, name)
        except Raised as e:
            if default is not MISSING and self.exc_isinstance(e.val, AttributeError):
                return default
            raise

    def attr_error(self, v, name):
        e = AttributeError(f'{v!r} has no attribute {name}')
        # objects the contracts set up carry what the verified code is known to read, not everything
        e.partial = isinstance(v, (SRef, SFun)) or isinstance(v, H) and self.rec(v).kind == 'obj'
        raise Raised(e)

    def _getattr(self, v, name):
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind == 'obj':
                if name == '__class__': return r.cls
                if name == '__dict__': return SFun('__dict__', None, (v,), cls='__dict__')
                ca = self.class_attr(r.cls, name)
                if ca is not MISSING and isinstance(ca, property):
                    if type(ca) is not property:   # e.g. cached_property: its own __get__ is interpreted
                        g = self.class_attr(type(ca), '__get__')
                        if isinstance(g, types.FunctionType):
                            return self.call(g, [ca, v, r.cls])
                    return self.call(ca.fget, [v])
                if name in r.f and name != '$c':
                    x = r.f[name]
                    if isinstance(x, SIte) or x is MISSING:
                        x = self.force(x)
                    if x is not MISSING:
                        return x
                if ca is MISSING:
                    ga = self.class_attr(r.cls, '__getattr__')
                    if ga is not MISSING:
                        return self.call(ga, [v, name])
                    m = _ext.obj_attr(self, v, r, name)
                    if m is not MISSING: return m
                    self.attr_error(v, name)
                return self.bind_attr(ca, v, r.cls)
            return _ext.builtin_attr(self, v, r, name)
        if isinstance(v, SRef):
            a = self.heap.get(('attr', name))
            if a is not None:
                p, x = self.map_lookup(a.f['$c'], v)
                if p is True: return x
                if p is not False:
                    if self.branch(p): return x
            for c in (v.cls.__mro__ if isinstance(v.cls, type) else [v.cls]):
                if c in self.schema and name in self.schema[c]:
                    return self.schema[c][name](self, v)
            if name == '__class__': return v.cls
            if isinstance(v.cls, type):
                ca = self.class_attr(v.cls, name)
                if ca is not MISSING:
                    if isinstance(ca, property): return self.call(ca.fget, [v])
                    return self.bind_attr(ca, v, v.cls)
            self.attr_error(v, name)
        if isinstance(v, Super):
            mro = self.cls_of(v.self).__mro__ if not isinstance(v.self, type) else v.self.__mro__
            i = mro.index(v.start) + 1
            for c in mro[i:]:
                if name in c.__dict__:
                    ca = c.__dict__[name]
                    if isinstance(ca, property): return self.call(ca.fget, [v.self])
                    return self.bind_attr(ca, v.self, self.cls_of(v.self) if not isinstance(v.self, type) else v.self, isinstance(v.self, type))
            self.attr_error(v, name)
        if isinstance(v, SFun):
            if name in v.attrs: return v.attrs[name]
            if name == '__name__': return v.name
            if v.cls == '__dict__': return _ext.dict_proxy_attr(self, v, name)
            if isinstance(v.cls, type):
                ca = self.class_attr(v.cls, name)
                if ca is not MISSING: return self.bind_attr(ca, v, v.cls)
            self.attr_error(v, name)
        if isinstance(v, Bound):
            if name == '__self__': return v.self
            if name == '__func__': return v.fn
            if name == '__name__': return getattr(v.fn, '__name__', getattr(v.fn, 'name', '?'))
            self.attr_error(v, name)
        if isinstance(v, Closure):
            if name == '__name__': return v.name
            self.attr_error(v, name)
        if isinstance(v, (STensor, SSeq, SStr, z3.ExprRef, tuple)) or (isinstance(v, (str, int, float)) and name in ('format', 'join', 'shape', 'startswith')):
            return _ext.value_attr(self, v, name)
        if is_engine(v): raise Unsupported(f'attribute {name} of {v!r}')
        # native object
        if isinstance(v, type) and self.statics:
            for c in v.__mro__:
                if (c, name) in self.statics: return self.statics[c, name]
                if name in c.__dict__: break
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise Raised(e)

    def bind_attr(self, ca, obj, cls, is_cls=False):
        if isinstance(ca, staticmethod): return ca.__func__
        if isinstance(ca, classmethod): return Bound(ca.__func__, cls)
        if isinstance(ca, (types.FunctionType, Closure)): return ca if is_cls else Bound(ca, obj)
        if isinstance(ca, SFun): return ca if is_cls else Bound(ca, obj)
        if callable(ca) and not isinstance(ca, type) and isinstance(ca, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return Bound(ca, obj)
        return ca

    def setattr(self, v, name, x):
        v = self.force(v)
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind == 'dict' and r.cls is not None and r.cls.__name__ == 'OptimizeResult':
                self.setf(v, '$c', SMap(r.f['$c'].ops + (('set', name, x),))); return
            if r.kind != 'obj': raise Unsupported(f'setattr on {r.kind}')
            ca = self.class_attr(r.cls, name)
            if ca is not MISSING and isinstance(ca, property):
                if ca.fset is None: raise Raised(AttributeError(f"can't set {name}"))
                self.call(ca.fset, [v, x])
                return
            self.setf(v, name, x)
            return
        if isinstance(v, SRef):
            k = ('attr', name)
            r = self.heap.get(k) or Rec('dict', dict, {'$c': SMap()})
            self.heap[k] = r.set('$c', SMap(r.f['$c'].ops + (('set', v, x),)))
            return
        raise Unsupported(f'setattr on {v!r}')

    def delattr(self, v, name):
        v = self.force(v)
        if isinstance(v, H):
            r = self.rec(v)
            ca = self.class_attr(r.cls, name)
            if ca is not MISSING and isinstance(ca, property) and type(ca) is not property:
                d = self.class_attr(type(ca), '__delete__')
                if isinstance(d, types.FunctionType):
                    self.call(d, [ca, v]); return
            if name not in r.f or r.f[name] is MISSING: self.attr_error(v, name)
            if isinstance(r.f[name], SIte):
                if self.force(r.f[name]) is MISSING: self.attr_error(v, name)
            self.store(v, r.set(name, MISSING))
            return
        raise Unsupported('delattr')

    def hasattr(self, v, name):
        v = self.force(v)
        if isinstance(v, H) and isinstance(name, str) and self.rec(v).kind in ('list', 'dict', 'set', 'iter'):
            r = self.rec(v)
            base = {'list': list, 'dict': r.cls or dict, 'set': set, 'iter': type(iter([]))}[r.kind]
            if base.__name__ != 'OptimizeResult': return hasattr(base, name)
        try:
            self.getattr(v, name)
            return True
        except Raised as e:
            if self.exc_isinstance(e.val, AttributeError): return False
            raise

    def isinstance(self, v, cls):
        cls = self.force(cls)
        if isinstance(cls, H): raise Unsupported('isinstance with a list')
        if isinstance(cls, tuple):
            return Or(*[self.isinstance(v, c) for c in cls])
        if isinstance(v, SIte): return self.ite_bool(v.c, lambda: self.isinstance(v.a, cls), lambda: self.isinstance(v.b, cls))
        v = self.force(v)
        if isinstance(v, SRef):
            for c in v.cls.__mro__:
                h = self.schema.get(c, {}).get('$isinstance')
                if h is not None:
                    r = h(self, v, cls)
                    if r is not None: return r
        c = self.cls_of(v)
        if not isinstance(c, type): raise Unsupported(f'isinstance of {v!r}')
        if isinstance(v, SRef) and c is object and cls is not object and isinstance(cls, type):
            # nothing is known of its class
            return z3.Function(f'isa_{cls.__module__}.{cls.__qualname__}', Obj, z3.BoolSort())(v.t)
        try:
            return issubclass(c, cls)
        except TypeError as e:
            raise Raised(e)

    # ------------------------------------------------------------------ exceptions
    def exc_isinstance(self, val, cls):
        if isinstance(cls, tuple): return any(self.exc_isinstance(val, c) for c in cls)
        c = self.cls_of(val) if is_engine(val) else type(val)
        return issubclass(c, cls)

    def throw(self, cls, msg=''):
        raise Raised(cls(msg))

    # ------------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None, star=None):
        """star: an SMap of symbolically keyed keyword arguments."""
        kwargs = kwargs or {}
        args = list(args)
        fn = self.force(fn)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return _ext.call_descriptor(self, fn.fn, fn.self, args, kwargs)
            return self.call(fn.fn, [fn.self] + args, kwargs, star)
        if isinstance(fn, Closure):
            return self.call_node(fn.node, fn, args, kwargs, star)
        if isinstance(fn, SFun):
            if fn.call is None: raise Unsupported(f'call of {fn!r}')
            return fn.call(self, fn, args, kwargs, star)
        if isinstance(fn, H):
            r = self.rec(fn)
            if r.kind == 'obj':
                m = self.class_attr(r.cls, '__call__')
                if m is MISSING: raise Raised(TypeError('object is not callable'))
                return self.call(self.bind_attr(m, fn, r.cls), args, kwargs, star)
            h = _ext.call_handle(self, fn, r, args, kwargs, star)
            return h
        if isinstance(fn, SRef):
            m = self.getattr(fn, '__call__')
            return self.call(m, args, kwargs, star)
        if is_engine(fn): raise Raised(TypeError(f'{fn!r} is not callable'))
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs, star)
        if isinstance(fn, functools.partial):
            raise Unsupported('native partial')
        key = fn
        try:
            h = self.contracts.get(key)
        except TypeError:
            h = None
        if h is not None:
            self.used_contracts.add(getattr(fn, '__qualname__', str(fn)))
            return h(self, args, kwargs, star)
        h = _ext.lookup(fn)
        if h is not None:
            self.trusted.add(_ext.name_of(fn))
            return h(self, args, kwargs, star)
        if isinstance(fn, types.FunctionType) and in_repo(fn):
            return self.call_function(fn, args, kwargs, star)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs, star)
        if isinstance(fn, (operator.attrgetter, operator.itemgetter)) and len(args) == 1 and not kwargs and star is None:
            names = fn.__reduce__()[1]
            def get(n):
                v = args[0]
                if isinstance(fn, operator.itemgetter): return self.getitem(v, n)
                for x in n.split('.'): v = self.getattr(v, x)
                return v
            return get(names[0]) if len(names) == 1 else tuple(get(n) for n in names)
        return self.call_native(fn, args, kwargs, star)

    def call_native(self, fn, args, kwargs, star=None):
        if star is not None: raise Unsupported(f'symbolic keywords to {fn!r}')
        try:
            a = [self.native(x) for x in args]
            k = {n: self.native(x) for n, x in kwargs.items()}
        except Unsupported:
            raise Unsupported(f'call of {fn!r} on {args!r}, {kwargs!r}')
        try:
            return fn(*a, **k)
        except Exception as e:
            raise Raised(e)

    def native(self, v):
        """Concrete Python value of v, or Unsupported."""
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind == 'list':
                return [self.native(x.v) if type(x) is Unit else self._no() for x in r.f['$c'].segs]
            if r.kind == 'set':
                return {self.native(x.v) if type(x) is Unit else self._no() for x in r.f['$c'].segs}
            if r.kind == 'dict':
                d = r.cls()
                for op in r.f['$c'].ops:
                    if op[0] == 'set': d[self.native(op[1])] = self.native(op[2])
                    elif op[0] == 'del': d.pop(self.native(op[1]), None)
                    else: self._no()
                return d
            self._no()
        if isinstance(v, tuple): return tuple(self.native(x) for x in v)
        if isinstance(v, SSeq) and all(type(s) is Unit for s in v.segs): return tuple(self.native(s.v) for s in v.segs)
        if isinstance(v, (z3.IntNumRef,)): return v.as_long()
        if is_engine(v): self._no()
        return v

    def _no(self):
        raise Unsupported('not concrete')

    def instantiate(self, cls, args, kwargs, star=None):
        if cls.__module__.startswith('symfit') or (issubclass(cls, object) and getattr(cls, '__pyvc__', False)):
            import sympy
            if issubclass(cls, sympy.Basic):
                return self.call_native(cls, args, kwargs, star)
            if issubclass(cls, BaseException):
                try:
                    return cls(*[self.native(a) for a in args])
                except Unsupported:
                    return cls()
            if issubclass(cls, tuple) and hasattr(cls, '_fields') and not isinstance(cls.__dict__.get('__new__'), types.FunctionType) or \
                    (issubclass(cls, tuple) and hasattr(cls, '_fields') and not in_repo(self.class_attr(cls, '__new__'))):
                return self.namedtuple(cls, args, kwargs, star)
            f = {}
            h = self.alloc(Rec('obj', cls, f))
            new = self.class_attr(cls, '__new__')
            if isinstance(new, staticmethod): new = new.__func__
            if isinstance(new, types.FunctionType):
                r = self.call(new, [cls] + list(args), kwargs, star)
                if isinstance(r, H): h = r
                else: raise Unsupported('__new__')
            init = self.class_attr(cls, '__init__')
            if isinstance(init, (types.FunctionType, Closure)):
                self.call(init, [h] + list(args), kwargs, star)
            return h
        if issubclass(cls, BaseException):
            try:
                return cls(*[self.native(a) for a in args])
            except Unsupported:
                return cls()
        return self.call_native(cls, args, kwargs, star)

    def namedtuple(self, cls, args, kwargs, star=None):
        vals = [a.seq if isinstance(a, Star) else a for a in args]
        if star is not None or any(isinstance(a, Star) for a in args): raise Unsupported('namedtuple arguments')
        fs = dict(zip(cls._fields, vals)); fs.update(kwargs)
        if set(fs) != set(cls._fields) or len(vals) + len(kwargs) != len(cls._fields): raise Raised(TypeError('namedtuple arguments'))
        rec = dict(fs); rec['$items'] = SSeq([Unit(fs[n]) for n in cls._fields])
        return self.alloc(Rec('obj', cls, rec))

    def call_function(self, fn, args, kwargs, star=None):
        node = function_node(fn)
        if fn.__code__.co_filename != GHOSTS: self.functions.add(f'{fn.__module__}.{fn.__qualname__}')
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try: cells[n] = c.cell_contents
                except ValueError: pass
        clo = Closure(node, None, fn.__defaults__ or (), fn.__kwdefaults__ or {}, fn.__globals__, fn.__name__, None, fn, cells)
        return self.call_node(node, clo, args, kwargs, star)

    def call_node(self, node, clo, args, kwargs, star=None):
        frame = self.bind(node, clo, args, kwargs, star)
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            try:
                self.block(node.body, frame)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, node, clo, args, kwargs, star):
        a = node.args
        pos = a.posonlyargs + a.args
        f = {}
        args = list(args)
        kwargs = dict(kwargs)
        names = [x.arg for x in pos]
        extra = []
        i = 0
        for k, v in enumerate(args):
            if isinstance(v, Star):
                seq = v.seq
                # positional parameters fed by a symbolic tail
                while i < len(names):
                    n = self.seq_len(seq)
                    if not self.branch(n > 0 if isz(n) else n > 0): break
                    f[names[i]] = self.seq_get(seq, 0)
                    seq = self.seq_slice(seq, 1, None)
                    i += 1
                extra.extend(seq.segs)
            elif i < len(names):
                f[names[i]] = v; i += 1
            else:
                extra.append(Unit(v))
        if extra and not a.vararg:
            n = self.seq_len(SSeq(extra))
            if self.branch(n > 0 if isz(n) else n > 0):
                raise Raised(TypeError(f'{clo.name}() takes {len(names)} positional arguments'))
        kwnames = [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kwargs.items():
            if k in kwnames or (k in names and k not in [x.arg for x in a.posonlyargs]):
                if k in f: raise Raised(TypeError(f'{clo.name}() got multiple values for argument {k}'))
                f[k] = v
            elif a.kwarg:
                rest.append(('set', k, v))
            else:
                raise Raised(TypeError(f'{clo.name}() got an unexpected keyword argument {k}'))
        starmap = star
        if starmap is not None:
            for k in names + kwnames:
                if k in f and k in names:
                    # a duplicate would be a TypeError
                    p, _ = self.map_lookup(starmap, k)
                    if self.branch(p): raise Raised(TypeError('multiple values'))
                    continue
                p, v = self.map_lookup(starmap, k)
                if self.branch(p):
                    f[k] = v
                    starmap = SMap(starmap.ops + (('del', k),))
            if not a.kwarg:
                n = self.map_len(starmap)
                if self.branch(n != 0 if isz(n) else n != 0):
                    raise Raised(TypeError('unexpected keyword argument'))
        nd = len(clo.defaults)
        for j, nm in enumerate(names):
            if nm not in f:
                d = j - (len(names) - nd)
                if d >= 0: f[nm] = clo.defaults[d]
                else: raise Raised(TypeError(f'{clo.name}() missing argument {nm}'))
        for nm in kwnames:
            if nm not in f:
                if nm in clo.kwdefaults: f[nm] = clo.kwdefaults[nm]
                else: raise Raised(TypeError(f'{clo.name}() missing keyword argument {nm}'))
        if a.vararg: f[a.vararg.arg] = tuple(s.v for s in extra) if all(type(s) is Unit for s in extra) else SSeq(extra)
        if a.kwarg:
            ops = (starmap.ops if starmap is not None else ()) + tuple(rest)
            f[a.kwarg.arg] = self.new_dict(ops)
        # mutable native defaults
        for k, v in list(f.items()):
            if isinstance(v, (list, dict, set)) : f[k] = self.lift(v)
        loc = frozenset(local_names(node))
        fr = Rec('frame', None, f)
        h = self.alloc(fr)
        self.heap[h.id].tag = (clo, loc)
        return h

    def lift(self, v):
        """Engine value of a native mutable container."""
        if isinstance(v, list): return self.list_of([self.lift(x) for x in v])
        if isinstance(v, dict): return self.new_dict([('set', self.lift(k), self.lift(x)) for k, x in v.items()], type(v))
        if isinstance(v, set): return self.new_set([Unit(self.lift(x)) for x in v])
        if type(v) is tuple: return tuple(self.lift(x) for x in v)
        return v

    # ------------------------------------------------------------------ names
    def lookup(self, name, frame):
        h = frame
        while h is not None:
            r = self.rec(h)
            clo, loc = r.tag
            if name in r.f and r.f[name] is not MISSING:
                v = r.f[name]
                if isinstance(v, (SIte, Last)):
                    v = self.force(v) if isinstance(v, Last) or self.may_be_missing(v) else v
                if v is MISSING: raise Raised(UnboundLocalError(name))
                return v
            if name in loc:
                raise Raised(UnboundLocalError(name))
            if clo is None: return self._global(name, {}, {})
            if clo.frame is None:
                return self._global(name, clo.cells or {}, clo.glob)
            h = clo.frame
        raise Unsupported('lookup')

    def may_be_missing(self, v):
        if v is MISSING: return True
        if isinstance(v, SIte): return self.may_be_missing(v.a) or self.may_be_missing(v.b)
        if isinstance(v, Last): return True
        return False

    def _global(self, name, cells, glob):
        if name in cells: return cells[name]
        if name in glob: return glob[name]
        if hasattr(builtins, name): return getattr(builtins, name)
        raise Raised(NameError(name))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        T = type(s)
        if T is ast.Expr:
            if not isinstance(s.value, ast.Constant): self.ev(s.value, fr)
        elif T is ast.Assign:
            v = self.ev(s.value, fr)
            for t in s.targets: self.assign(t, v, fr)
        elif T is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
        elif T is ast.AugAssign:
            self.augassign(s, fr)
        elif T is ast.Return:
            raise Return(self.ev(s.value, fr) if s.value is not None else None)
        elif T is ast.If:
            if self.branch(self.cond(s.test, fr)): self.block(s.body, fr)
            else: self.block(s.orelse, fr)
        elif T is ast.For:
            self.exec_for(s, fr)
        elif T is ast.While:
            self.exec_while(s, fr)
        elif T is ast.FunctionDef:
            v = self.make_closure(s, fr, s.name)
            for d in reversed(s.decorator_list):
                v = self.call(self.ev(d, fr), [v])
            self.assign_name(s.name, v, fr)
        elif T is ast.Try:
            self.exec_try(s, fr)
        elif T is ast.Raise:
            if s.exc is None:
                raise Unsupported('bare raise')
            e = self.ev(s.exc, fr)
            if isinstance(e, type) and issubclass(e, BaseException): e = e()
            raise Raised(e)
        elif T is ast.Assert:
            if not self.branch(self.cond(s.test, fr)):
                raise Raised(AssertionError())
        elif T is ast.Pass: pass
        elif T is ast.Break: raise Break()
        elif T is ast.Continue: raise Continue()
        elif T is ast.Delete:
            for t in s.targets: self.delete(t, fr)
        elif T in (ast.Import, ast.ImportFrom):
            self.exec_import(s, fr)
        elif T is ast.ClassDef:
            self.exec_class(s, fr)
        elif T in (ast.Global, ast.Nonlocal):
            raise Unsupported('global/nonlocal')
        else:
            raise Unsupported(f'statement {T.__name__}')

    def exec_class(self, s, fr):
        bases = tuple(self.ev(b, fr) for b in s.bases)
        if s.keywords or not all(isinstance(b, type) for b in bases): raise Unsupported('class statement')
        ns = {'__module__': 'symfit.local'}
        for st in s.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            if isinstance(st, ast.Pass): continue
            if isinstance(st, ast.FunctionDef) and not st.decorator_list:
                ns[st.name] = self.make_closure(st, fr, st.name)
                continue
            raise Unsupported('class body')
        cls = type(bases[0])(s.name, bases, ns) if bases else type(s.name, bases, ns)
        self.assign_name(s.name, cls, fr)

    def exec_import(self, s, fr):
        import importlib
        if isinstance(s, ast.Import):
            for a in s.names:
                m = importlib.import_module(a.name)
                self.assign_name(a.asname or a.name.split('.')[0], m if a.asname else sys.modules[a.name.split('.')[0]], fr)
        else:
            if s.level: raise Unsupported('relative import in function')
            m = importlib.import_module(s.module)
            for a in s.names:
                self.assign_name(a.asname or a.name, getattr(m, a.name), fr)

    def exec_while(self, s, fr):
        for _ in range(200):
            c = self.cond(s.test, fr)
            c = self.truth(c)
            if isz(c):
                cs = z3.simplify(c)
                if not (z3.is_true(cs) or z3.is_false(cs)):
                    if self.implied(c): c = True
                    elif self.implied(Not(c)): c = False
                    else: raise Unsupported('while loop with a symbolic condition')
                else: c = z3.is_true(cs)
            if not c:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Break: return
            except Continue: continue
        raise Unsupported('while loop')

    def exec_try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Raised as e:
                for h in s.handlers:
                    cls = self.ev(h.type, fr) if h.type is not None else BaseException
                    if self.exc_isinstance(e.val, cls):
                        if h.name: self.assign_name(h.name, e.val, fr)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (Raised, Return, Break, Continue):
            if s.finalbody: self.block(s.finalbody, fr)   # a Return/Break here overrides, as in Python
            raise
        else:
            if s.finalbody: self.block(s.finalbody, fr)

    def assign_name(self, name, v, fr):
        self.setf(fr, name, v)

    def assign(self, t, v, fr):
        T = type(t)
        if T is ast.Name:
            self.assign_name(t.id, v, fr)
        elif T in (ast.Tuple, ast.List):
            v = self.force(v)
            seq = self.as_seq(self.iter_value(v))
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported('starred assignment')
            L = self.seq_len(seq)
            if not self.branch(L == n if isz(L) else L == n):
                raise Raised(ValueError('unpack'))
            for k, e in enumerate(t.elts):
                self.assign(e, self.seq_get(seq, k), fr)
        elif T is ast.Attribute:
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif T is ast.Subscript:
            o = self.force(self.ev(t.value, fr))
            k = self.ev_index(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def augassign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.inplace(op, cur, lambda: self.ev(s.value, fr))
            self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            new = self.inplace(op, self.getattr(o, t.attr), lambda: self.ev(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, fr))
            k = self.ev_index(t.slice, fr)
            new = self.inplace(op, self.getitem(o, k), lambda: self.ev(s.value, fr))
            self.setitem(o, k, new)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, rhs):
        cur = self.force(cur)
        v = rhs()
        if isinstance(cur, H):
            r = self.rec(cur)
            if r.kind == 'list' and op is ast.Add:
                seq = self.as_seq(self.iter_value(v))
                self.setf(cur, '$c', SSeq(r.f['$c'].segs + seq.segs))
                return cur
            if r.kind == 'nd':
                return _ext.nd_inplace(self, op, cur, v)
        return self.binop(op, cur, v)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            self.lookup(t.id, fr); self.setf(fr, t.id, MISSING)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, fr), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.force(self.ev(t.value, fr)), self.ev_index(t.slice, fr))
        else: raise Unsupported('del')

    # ------------------------------------------------------------------ expressions
    def cond(self, e, fr):
        """Truth of an expression, keeping and/or/not symbolic where both sides are pure conditions."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.truth(self.cond(e.operand, fr)))
        return self.truth(self.ev(e, fr))

    def merge_eval(self, c, thunk):
        """Evaluate thunk under c without leaving a fork, if it is effect free and cannot raise; returns (ok, value)."""
        base = self.snapshot()
        self.pc.append(tobool(c))
        if not self.feasible_strict():
            self.restore(base); return 'dead', None
        try:
            paths = self.explore(thunk)
        finally:
            self.restore(base)
        if not paths: return 'dead', None
        if any(p.kind != 'normal' for p in paths): return 'no', None
        for p in paths:
            for k, r in p.heap.items():
                if k in base[0] and base[0][k] is not r: return 'no', None
        if len(paths) > 1 and any(isinstance(p.val, H) for p in paths): return 'no', None
        # keep records allocated while evaluating
        for p in paths:
            for k, r in p.heap.items():
                if k not in self.heap: self.heap[k] = r
        v = paths[-1].val
        for p in reversed(paths[:-1]):
            v = ite(And(*p.pc), p.val, v)
        return 'ok', v

    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def ev_Constant(self, e, fr): return e.value
    def ev_Name(self, e, fr): return self.lookup(e.id, fr)
    def ev_Tuple(self, e, fr):
        segs = self.elts(e.elts, fr)
        return tuple(s.v for s in segs) if all(type(s) is Unit for s in segs) else SSeq(segs)
    def ev_List(self, e, fr): return self.new_list(self.elts(e.elts, fr))
    def ev_Set(self, e, fr):
        return _ext.make_set(self, SSeq(self.elts(e.elts, fr)))
    def elts(self, es, fr):
        segs = []
        for x in es:
            if isinstance(x, ast.Starred):
                segs.extend(self.as_seq(self.iter_value(self.ev(x.value, fr))).segs)
            else:
                segs.append(Unit(self.ev(x, fr)))
        return segs
    def ev_Dict(self, e, fr):
        ops = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.as_map(self.ev(v, fr))
                ops.extend(m.ops)
            else:
                kk = self.ev(k, fr); ops.append(('set', kk, self.ev(v, fr)))
        return self.new_dict(ops)
    def ev_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)
    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_index(e.slice, fr)
        return self.getitem(self.force(o), k)
    def ev_index(self, e, fr):
        if isinstance(e, ast.Slice):
            g = lambda x: self.force(self.ev(x, fr)) if x is not None else None
            return slice(g(e.lower), g(e.upper), g(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in e.elts)
        return self.ev(e, fr)
    def ev_Slice(self, e, fr): return self.ev_index(e, fr)
    def ev_Starred(self, e, fr): raise Unsupported('starred')
    def ev_Lambda(self, e, fr): return self.make_closure(e, fr, '<lambda>')
    def make_closure(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        clo, _ = self.rec(fr).tag
        return Closure(node, fr, defaults, kwd, clo.glob if clo else {}, name)
    def ev_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        if isz(c): c = z3.simplify(c)
        if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
            t = c if isinstance(c, bool) else z3.is_true(c)
            return self.ev(e.body if t else e.orelse, fr)
        sa, a = self.merge_eval(c, lambda: self.ev(e.body, fr))
        sb, b = self.merge_eval(Not(c), lambda: self.ev(e.orelse, fr))
        if sa == 'ok' and sb == 'ok' and not (isinstance(a, H) or isinstance(b, H)):
            return ite(c, a, b)
        return self.ev(e.body if self.branch(c) else e.orelse, fr)
    def ev_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr)
        for x in e.values[1:]:
            c = self.truth(v)
            if isz(c): c = z3.simplify(c); c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if isinstance(c, bool):
                if c == is_and: v = self.ev(x, fr)
                else: return v
                continue
            go = c if is_and else Not(c)
            if isbool(v):
                s, b = self.merge_eval(go, lambda: self.ev(x, fr))
                if s == 'dead':
                    continue
                if s == 'ok' and isbool(b):
                    v = And(c, b) if is_and else Or(c, b)
                    continue
            if self.branch(go): v = self.ev(x, fr)
            else: return (False if is_and else True) if isbool(v) else v
        return v
    def ev_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not): return Not(self.cond(e.operand, fr))
        v = self.force(self.ev(e.operand, fr))
        if isinstance(e.op, ast.USub): return self.neg(v)
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary')
    def neg(self, v):
        if isinstance(v, H) and self.rec(v).kind == 'obj':
            return self.call(self.getattr(v, '__neg__'), [])
        if isinstance(v, z3.ArithRef): return -v
        if isinstance(v, STensor): return STensor(v.axes, v.ivars, self.neg(v.body))
        if isinstance(v, H): return self.neg(_ext.as_tensor(self, v))
        if isinstance(v, SRef): return _ext.sym_op(self, 'neg', v)
        if isinstance(v, z3.BoolRef): return -real(v)
        if is_engine(v): raise Unsupported(f'-{v!r}')
        return -v
    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr); b = self.ev(e.right, fr)
        return self.binop(type(e.op), a, b)
    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(type(op), left, right)
            if len(e.ops) == 1: return c
            res = And(res, self.truth(c)); left = right
            if res is False: return False
        return res
    def ev_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.keywords:
            return self.make_super([self.ev(a, fr) for a in e.args], fr)
        fn = self.ev(f, fr)
        args, kwargs, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.as_seq(self.iter_value(self.ev(a.value, fr)))
                for s in seq.segs:
                    if type(s) is Unit: args.append(s.v)
                    else: args.append(Star(SSeq([s])))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                v = self.force(v)
                m = self.as_map(v)
                if all(op[0] in ('set', 'del') and isinstance(op[1], str) for op in m.ops):
                    d = {}
                    for op in m.ops:
                        if op[0] == 'del': d.pop(op[1], None)
                        else: d[op[1]] = op[2]
                    for n, x in d.items():
                        if n in kwargs: raise Raised(TypeError('multiple values for keyword'))
                        kwargs[n] = x
                else:
                    star = m if star is None else SMap(star.ops + m.ops)
            else:
                if k.arg in kwargs: raise Raised(TypeError('multiple values for keyword'))
                kwargs[k.arg] = v
        # adjacent symbolic tails are merged
        merged = []
        for a in args:
            if isinstance(a, Star) and merged and isinstance(merged[-1], Star):
                merged[-1] = Star(SSeq(merged[-1].seq.segs + a.seq.segs))
            else: merged.append(a)
        return self.call(fn, merged, kwargs, star)
    def make_super(self, args, fr):
        if args:
            return Super(None, self.force(args[1]), args[0])
        h = fr
        while h is not None:
            r = self.rec(h)
            clo, loc = r.tag
            if clo is None: raise Unsupported('super')
            if clo.cells and '__class__' in clo.cells:
                first = (clo.node.args.posonlyargs + clo.node.args.args)[0].arg
                return Super(None, r.f[first], clo.cells['__class__'])
            h = clo.frame
        raise Unsupported('super()')
    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else: parts.append(self.force(self.ev(v.value, fr)))
        return _ext.str_concat(self, parts)
    def ev_FormattedValue(self, e, fr): return self.ev(e.value, fr)
    def ev_ListComp(self, e, fr): return self.new_list(self.comprehension(e.generators, fr, lambda f: self.ev(e.elt, f)).segs)
    def ev_GeneratorExp(self, e, fr): return self.comprehension(e.generators, fr, lambda f: self.ev(e.elt, f))
    def ev_SetComp(self, e, fr):
        return _ext.make_set(self, self.comprehension(e.generators, fr, lambda f: self.ev(e.elt, f)))
    def ev_DictComp(self, e, fr):
        pairs = self.comprehension(e.generators, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        return self.new_dict(self.pairs_to_ops(pairs))
    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); self.assign(e.target, v, fr); return v

    def comprehension(self, gens, fr, elt):
        clo, _ = self.rec(fr).tag
        acc = self.new_list()
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): names.add(n.id)
        cf = self.alloc(Rec('frame', None, {}))
        inner = Closure(None, fr, (), {}, clo.glob if clo else {}, '<comp>')
        self.heap[cf.id].tag = (inner, frozenset(names))
        def rec(k, frame):
            if k == len(gens):
                v = elt(frame)
                r = self.rec(acc)
                self.setf(acc, '$c', SSeq(r.f['$c'].segs + (Unit(v),)))
                return
            g = gens[k]
            it = self.iter_value(self.ev(g.iter, frame))
            def body(x):
                self.assign(g.target, x, frame)
                for c in g.ifs:
                    if not self.branch(self.cond(c, frame)): return
                rec(k + 1, frame)
            self.loop_over(it, body)
        rec(0, cf)
        return self.rec(acc).f['$c']

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        return _ext.binop(self, op, a, b)

    def compare(self, op, a, b):
        if op is ast.Is: return self.is_(a, b)
        if op is ast.IsNot: return Not(self.is_(a, b))
        if op is ast.In: return self.contains(b, a)
        if op is ast.NotIn: return Not(self.contains(b, a))
        if op in (ast.Eq, ast.NotEq):
            # comparisons that do not answer with a bool (arrays)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, H) and self.rec(x).kind == 'obj' and getattr(self.rec(x).cls, '__elementwise__', False):
                    return self.call(self.getattr(x, '__eq__' if op is ast.Eq else '__ne__'), [y])
        if op is ast.Eq:
            r = self.eq(a, b); return r
        if op is ast.NotEq:
            r = self.eq(a, b)
            if isinstance(r, STensor): return STensor(r.axes, r.ivars, Not(r.body))
            return Not(r)
        a, b = self.force(a), self.force(b)
        return _ext.order(self, op, a, b)

    # ------------------------------------------------------------------ conveniences for harnesses
    def schema_get(self, v, name):
        for c in (v.cls.__mro__ if isinstance(v.cls, type) else [v.cls]):
            if name in self.schema.get(c, {}): return self.schema[c][name]
        return None

    def group_size(self, key):
        f = z3.Function('gsize', z3.IntSort(), z3.IntSort())
        return f(key)

    def method(self, obj, name, *args, **kwargs):
        return self.call(self.getattr(obj, name), list(args), kwargs)

    def at(self, path):
        """Context: continue from the end of an explored path."""
        import contextlib
        @contextlib.contextmanager
        def cm():
            s = self.snapshot()
            self.heap = dict(path.heap)
            self.pc = self.pc + list(path.pc)
            try:
                yield path
            finally:
                self.restore(s)
        return cm()
