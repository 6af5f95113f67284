"""Symbolic values of the pyvc verifier.

Concrete Python objects stand for themselves.  Numbers and booleans may be z3 terms
(Int / Real / Bool).  The remaining classes below describe symbolic strings, references,
sequences of unbounded length, maps, tensors, functions and handles to heap records.
Everything except heap records is immutable.
"""
import sys, os
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3
from fractions import Fraction

Obj = z3.DeclareSort('Obj')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The verifier cannot model this construct: the obligation is out of reach (never a violation)."""


class SStr:
    """A symbolic string.  `t` is an Int term; the order of strings is the order of the terms."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SStr({self.t})'


class SRef:
    """A symbolic immutable-identity object (a Parameter, Variable, expression, ...)."""
    __slots__ = ('t', 'cls')
    def __init__(self, t, cls): self.t, self.cls = t, cls
    def __repr__(self): return f'<{getattr(self.cls, "__name__", self.cls)} {self.t}>'


class SIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f'Ite({self.c}, {self.a}, {self.b})'


class H:
    """Handle to heap record `id`; `idx` instantiates the family of records created by a summarised loop."""
    __slots__ = ('id', 'idx')
    def __init__(self, id, idx=()): self.id, self.idx = id, tuple(idx)
    def __repr__(self): return f'H{self.id}' + (str(list(self.idx)) if self.idx else '')


class Rec:
    """Heap record (immutable; the heap maps ids to records)."""
    __slots__ = ('kind', 'cls', 'f', 'ivars', 'over', 'tag')
    def __init__(self, kind, cls=None, f=None, ivars=(), over=(), tag=None):
        self.kind, self.cls, self.f, self.ivars, self.over, self.tag = kind, cls, f or {}, ivars, over, tag
    def set(self, name, v):
        f = dict(self.f); f[name] = v
        return Rec(self.kind, self.cls, f, self.ivars, self.over, self.tag)
    def unset(self, name):
        f = dict(self.f); f.pop(name, None)
        return Rec(self.kind, self.cls, f, self.ivars, self.over, self.tag)


class Havoc:
    """Placeholder for a loop-carried cell, materialised (typed) when read."""
    __slots__ = ('cell', 'init')
    def __init__(self, cell, init): self.cell, self.init = cell, init
    def __repr__(self): return f'Havoc{self.cell}'


class Last:
    """Value of a variable overwritten by every iteration: body at the last executed index, or init when none was."""
    __slots__ = ('n', 'var', 'cond', 'body', 'init')
    def __init__(self, n, var, cond, body, init): self.n, self.var, self.cond, self.body, self.init = n, var, cond, body, init
    def __repr__(self): return f'Last({self.body!r} over {self.var}<{self.n})'


class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()
MISSING = Undef()


# ---- sequences -------------------------------------------------------------
class Unit:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return f'{self.v!r}'


class Comp:
    """[body(var) for var in range(n) if cond(var)]"""
    __slots__ = ('n', 'var', 'cond', 'body')
    def __init__(self, n, var, cond, body): self.n, self.var, self.cond, self.body = n, var, cond, body
    def __repr__(self): return f'[{self.body!r} for {self.var}<{self.n} if {self.cond}]'


class Flat:
    """[e for var in range(n) if cond(var) for e in seq(var)]"""
    __slots__ = ('n', 'var', 'cond', 'seq')
    def __init__(self, n, var, cond, seq): self.n, self.var, self.cond, self.seq = n, var, cond, seq
    def __repr__(self): return f'[*{self.seq!r} for {self.var}<{self.n} if {self.cond}]'


class Prev:
    """The (unknown) content of a list at the start of an iteration, with point updates."""
    __slots__ = ('cell', 'upd', 'init')
    def __init__(self, cell, init, upd=()): self.cell, self.init, self.upd = cell, init, tuple(upd)
    def __repr__(self): return f'Prev{self.cell}{list(self.upd)}'


class SSeq:
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return 'Seq' + repr(list(self.segs))


# ---- maps ------------------------------------------------------------------
class SMap:
    """ops, oldest first:
       ('set', k, v) | ('del', k) | ('loop', n, var, cond, k, v) | ('ldel', n, var, cond, k) | ('prev', cell, init)
       | ('base', BaseMap)"""
    __slots__ = ('ops',)
    def __init__(self, ops=()): self.ops = tuple(ops)
    def __repr__(self): return 'Map' + repr(list(self.ops))


class BaseMap:
    """Opaque remainder of a mapping: lookup(engine, key, *data) -> (present, value).
    domain: class of its keys (SStr), where two such mappings may be compared."""
    def __init__(self, name, lookup, items=None, data=(), domain=None): self.name, self.lookup, self.items, self.data, self.domain = name, lookup, items, tuple(data), domain
    def __repr__(self): return f'base:{self.name}'


# ---- arrays ----------------------------------------------------------------
class Axis:
    """One axis (key None) or a group of axes of unknown rank (key identifies the group), flattened to n points."""
    __slots__ = ('n', 'key', 'rank')
    def __init__(self, n, key=None, rank=1): self.n, self.key, self.rank = n, key, rank
    def __repr__(self): return f'{self.n}' + (f'@{self.key}' if self.key is not None else '')


class STensor:
    __slots__ = ('axes', 'ivars', 'body')
    def __init__(self, axes, ivars, body): self.axes, self.ivars, self.body = tuple(axes), tuple(ivars), body
    def __repr__(self): return f'Tensor{list(self.axes)}({self.body!r})'


# ---- functions -------------------------------------------------------------
class Closure:
    __slots__ = ('node', 'frame', 'defaults', 'kwdefaults', 'glob', 'name', 'defcls', 'native', 'cells')
    def __init__(self, node, frame, defaults, kwdefaults, glob, name, defcls=None, native=None, cells=None):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, tuple(defaults), kwdefaults
        self.glob, self.name, self.defcls, self.native, self.cells = glob, name, defcls, native, cells
    def __repr__(self): return f'<fn {self.name}>'


class Bound:
    __slots__ = ('fn', 'self')
    def __init__(self, fn, self_): self.fn, self.self = fn, self_
    def __repr__(self): return f'<bound {self.fn} of {self.self}>'


class Super:
    __slots__ = ('cls', 'self', 'start')
    def __init__(self, cls, self_, start): self.cls, self.self, self.start = cls, self_, start


class SFun:
    """Opaque function value: call(engine, data, args, kwargs, star, starmap).  `data` takes part in substitution."""
    __slots__ = ('name', 'call', 'data', 'cls', 'attrs')
    def __init__(self, name, call, data=(), cls=None, attrs=None):
        self.name, self.call, self.data, self.cls, self.attrs = name, call, tuple(data), cls, attrs or {}
    def __repr__(self): return f'<sfun {self.name}{list(self.data) or ""}>'


def isz(v):
    return isinstance(v, z3.ExprRef)

def isbool(v):
    return isinstance(v, (bool, z3.BoolRef))

def isnum(v):
    return (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def subst(v, pairs):
    """Substitute z3 constants by terms in a value.  pairs: list of (const, term)."""
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (int, float, str, bool, Fraction, type)):
        return v
    T = type(v)
    if T is SStr: return SStr(z3.substitute(v.t, *pairs))
    if T is SRef: return SRef(z3.substitute(v.t, *pairs), v.cls)
    if T is SIte: return ite(subst(v.c, pairs), subst(v.a, pairs), subst(v.b, pairs))
    if T is tuple: return tuple(subst(x, pairs) for x in v)
    if T is H: return H(v.id, [z3.substitute(x, *pairs) for x in v.idx]) if v.idx else v
    if T is SSeq: return SSeq([subst_seg(s, pairs) for s in v.segs])
    if T is SMap: return SMap([tuple(subst(x, pairs) for x in op) for op in v.ops])
    if T is STensor:
        return STensor([Axis(subst(a.n, pairs), subst(a.key, pairs), subst(a.rank, pairs)) for a in v.axes], v.ivars, subst(v.body, pairs))
    if T is Closure:
        return Closure(v.node, subst(v.frame, pairs), [subst(d, pairs) for d in v.defaults],
                       {k: subst(d, pairs) for k, d in v.kwdefaults.items()}, v.glob, v.name, v.defcls, v.native, v.cells)
    if T is Bound: return Bound(subst(v.fn, pairs), subst(v.self, pairs))
    if T is Super: return Super(v.cls, subst(v.self, pairs), v.start)
    if T is SFun: return SFun(v.name, v.call, [subst(d, pairs) for d in v.data], v.cls, {k: subst(d, pairs) for k, d in v.attrs.items()})
    if T is Havoc: return v
    if T is BaseMap and v.data: return BaseMap(v.name, v.lookup, v.items, subst(v.data, pairs), v.domain)
    if T is Last: return Last(subst(v.n, pairs), v.var, subst(v.cond, pairs), subst(v.body, pairs), subst(v.init, pairs))
    if T is slice: return slice(subst(v.start, pairs), subst(v.stop, pairs), subst(v.step, pairs))
    return v


def subst_seg(s, pairs):
    T = type(s)
    if T is Unit: return Unit(subst(s.v, pairs))
    if T is Comp: return Comp(subst(s.n, pairs), s.var, subst(s.cond, pairs), subst(s.body, pairs))
    if T is Flat: return Flat(subst(s.n, pairs), s.var, subst(s.cond, pairs), subst(s.seq, pairs))
    if T is Prev: return Prev(s.cell, s.init, [(subst(i, pairs), subst(x, pairs)) for i, x in s.upd])
    raise Unsupported('segment')


def walk(v, f):
    """Rebuild a value bottom-up-ish applying f to leaves first; f returns a replacement or None."""
    r = f(v)
    if r is not None:
        return r
    T = type(v)
    if v is None or isinstance(v, (int, float, str, bool, Fraction, type, z3.ExprRef, SStr, SRef, H, Havoc)):
        return v
    if T is SIte: return ite(v.c, walk(v.a, f), walk(v.b, f))
    if T is tuple: return tuple(walk(x, f) for x in v)
    if T is SSeq:
        segs = []
        for s in v.segs:
            r = f(s)
            if r is not None:
                segs.extend(r.segs if isinstance(r, SSeq) else [r])
            elif type(s) is Unit: segs.append(Unit(walk(s.v, f)))
            elif type(s) is Comp: segs.append(Comp(s.n, s.var, s.cond, walk(s.body, f)))
            elif type(s) is Flat: segs.append(Flat(s.n, s.var, s.cond, walk(s.seq, f)))
            elif type(s) is Prev: segs.append(Prev(s.cell, s.init, [(i, walk(x, f)) for i, x in s.upd]))
        return SSeq(segs)
    if T is SMap:
        return SMap([tuple(walk(x, f) for x in op) for op in v.ops])
    if T is STensor: return STensor(v.axes, v.ivars, walk(v.body, f))
    if T is Closure:
        return Closure(v.node, walk(v.frame, f), [walk(d, f) for d in v.defaults],
                       {k: walk(d, f) for k, d in v.kwdefaults.items()}, v.glob, v.name, v.defcls, v.native, v.cells)
    if T is Bound: return Bound(walk(v.fn, f), walk(v.self, f))
    if T is SFun: return SFun(v.name, v.call, [walk(d, f) for d in v.data], v.cls, {k: walk(d, f) for k, d in v.attrs.items()})
    if T is BaseMap and v.data: return BaseMap(v.name, v.lookup, v.items, walk(v.data, f), v.domain)
    if T is Last: return Last(v.n, v.var, v.cond, walk(v.body, f), walk(v.init, f))
    if T is slice: return slice(walk(v.start, f), walk(v.stop, f), walk(v.step, f))
    return v


def real(v):
    """z3 Real/Int term of a number."""
    if isinstance(v, z3.ArithRef): return v
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite number in arithmetic')
        return z3.RealVal(str(Fraction(repr(v)) if 'e' not in repr(v) else Fraction(repr(v))))
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    try:
        import numpy as np
        if isinstance(v, np.integer): return z3.IntVal(int(v))
        if isinstance(v, np.floating): return real(float(v))
    except ImportError:
        pass
    raise Unsupported(f'not a number: {v!r}')


def tobool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c

def And(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return False
    if not cs: return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)

def Or(*cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs): return True
    if not cs: return False
    return cs[0] if len(cs) == 1 else z3.Or(*cs)

def Not(c):
    if isinstance(c, bool): return not c
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)

def Implies(a, b): return Or(Not(a), b)


def same(a, b):
    """Syntactic identity of values (sound, incomplete)."""
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    T = type(a)
    if T is not type(b): return False
    if T in (int, float, str, bool, Fraction): return a == b
    if T is SStr: return a.t.eq(b.t)
    if T is SRef: return a.t.eq(b.t)
    if T is SIte: return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    if T is H: return a.id == b.id and len(a.idx) == len(b.idx) and all(same(x, y) for x, y in zip(a.idx, b.idx))
    if T is tuple: return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if T is Bound: return same(a.fn, b.fn) and same(a.self, b.self)
    if T is SFun: return a.name == b.name and a.call is b.call and len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data))
    if T is Closure: return a.node is b.node and same(a.frame, b.frame)
    if T is SSeq: return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))
    if T is STensor:
        return len(a.axes) == len(b.axes) and all(same(x.n, y.n) and same(x.key, y.key) for x, y in zip(a.axes, b.axes)) and \
            same(a.body, subst(b.body, list(zip(b.ivars, a.ivars))))
    if T is SMap:
        return len(a.ops) == len(b.ops) and all(len(x) == len(y) and x[0] == y[0] and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a.ops, b.ops))
    if T is Havoc: return a.cell == b.cell
    try:
        import numpy as np
        if isinstance(a, (np.generic,)): return bool(a == b)
    except Exception:
        pass
    return False


def same_seg(a, b):
    if type(a) is not type(b): return False
    if type(a) is Unit: return same(a.v, b.v)
    if type(a) is Comp:
        pr = [(b.var, a.var)]
        return same(a.n, b.n) and same(a.cond, subst(b.cond, pr)) and same(a.body, subst(b.body, pr))
    if type(a) is Flat:
        pr = [(b.var, a.var)]
        return same(a.n, b.n) and same(a.cond, subst(b.cond, pr)) and same(a.seq, subst(b.seq, pr))
    if type(a) is Prev:
        return a.cell == b.cell and len(a.upd) == len(b.upd) and all(same(x, y) for x, y in zip(a.upd, b.upd))
    return False


def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if isbool(a) and isbool(b): return z3.If(c, tobool(a), tobool(b))
    if isinstance(a, bool) and isinstance(b, bool): return c if a else Not(c)
    if isnum(a) and isnum(b) and (isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef)) \
            and not any(isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))) for x in (a, b)):
        x, y = real(a), real(b)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        return z3.If(c, x, y)
    if isinstance(a, SStr) and isinstance(b, SStr): return SStr(z3.If(c, a.t, b.t))
    if isinstance(a, SRef) and isinstance(b, SRef) and a.cls is b.cls: return SRef(z3.If(c, a.t, b.t), a.cls)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is tuple and type(b) is tuple:
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    # flatten trivially nested ites
    if isinstance(a, SIte) and isz(c) and a.c.eq(c): a = a.a
    if isinstance(b, SIte) and isz(c) and b.c.eq(c): b = b.b
    return SIte(c, a, b)


def consts_in(e, acc=None, seen=None):
    """Uninterpreted 0-ary constants occurring in a z3 term."""
    if acc is None: acc, seen = {}, set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.get_id()] = x
        stack.extend(x.children())
    return acc


def contains(v, const):
    """Does value v mention z3 constant `const`?"""
    cid = const.get_id()
    hit = []
    def f(x):
        if isz(x):
            if cid in consts_in(x): hit.append(1)
            return x
        if isinstance(x, (SStr, SRef)):
            if cid in consts_in(x.t): hit.append(1)
            return x
        if isinstance(x, H):
            for t in x.idx:
                if cid in consts_in(t): hit.append(1)
            return x
        if isinstance(x, SIte):
            if isz(x.c) and cid in consts_in(x.c): hit.append(1)
            return None
        if isinstance(x, Last):
            for t in (x.n, x.cond):
                if isz(t) and cid in consts_in(t): hit.append(1)
            return None
        if isinstance(x, (Comp, Flat)):
            for t in (x.n, x.cond):
                if isz(t) and cid in consts_in(t): hit.append(1)
            return None
        if isinstance(x, STensor):
            for a in x.axes:
                if isz(a.n) and cid in consts_in(a.n): hit.append(1)
            return None
        return None
    walk(v, f)
    return bool(hit)


def is_zero(x):
    """A literal zero."""
    if not isz(x): return x == 0 and not isinstance(x, bool)
    return (z3.is_int_value(x) and x.as_long() == 0) or (z3.is_rational_value(x) and x.numerator_as_long() == 0)
