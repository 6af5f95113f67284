"""Models of builtins, collections, numpy and the few other external functions the verified code calls.
These are the trusted base: each model states what the external function does on mathematical values."""
import ast, builtins, collections, functools, inspect, itertools, operator, types, warnings, copy
from .vals import *
import numpy as np

MODELS = {}
NAMES = {}


def model(*fns):
    def deco(h):
        for f in fns:
            MODELS[id(f)] = (f, h)
        return h
    return deco


def lookup(fn):
    r = MODELS.get(id(fn))
    return r[1] if r is not None and r[0] is fn else None


def name_of(fn):
    m = getattr(fn, '__module__', None) or type(fn).__module__
    return f'{m}.{getattr(fn, "__qualname__", getattr(fn, "__name__", repr(fn)))}'


def nokw(kwargs, *allowed):
    for k in kwargs:
        if k not in allowed: raise Unsupported(f'keyword {k}')


def has_star(args):
    from .engine import Star
    return any(isinstance(a, Star) for a in args)


def plain(args):
    if has_star(args): raise Unsupported('symbolic *args')
    return args


def Raise(cls, msg=''):
    from .engine import Raised
    raise Raised(cls(msg))


def py(f):
    """Model from a host function of (E, *args, **kwargs)."""
    import inspect
    sig = inspect.signature(f)
    def h(E, args, kwargs, star=None):
        if star is not None: raise Unsupported('symbolic keywords')
        plain(args)
        try: sig.bind(E, *args, **kwargs)
        except TypeError as e: raise Unsupported(f'call of a library function: {e}')
        return f(E, *args, **kwargs)
    return h


def engine_any(vs):
    from .engine import is_engine
    def deep(v):
        if is_engine(v): return True
        if type(v) is tuple: return any(deep(x) for x in v)
        return False
    return any(deep(v) for v in vs)


# ---------------------------------------------------------------------- tensors
def as_tensor(E, v):
    v = E.force(v)
    if isinstance(v, STensor): return v
    if isinstance(v, np.ndarray):
        if v.ndim == 0: return STensor([], [], v.item())
        return as_tensor(E, E.list_of([x for x in v]))
    if isnum(v) or isbool(v): return STensor([], [], v)
    if isinstance(v, np.generic): return STensor([], [], v.item())
    if isinstance(v, H):
        r = E.rec(v)
        if r.kind == 'nd': return r.f['$t']
        if r.kind in ('list', 'iter'): return stack_seq(E, E.as_seq(v))
        if r.kind == 'obj' and issubclass(r.cls, tuple) and '$items' in r.f: return stack_seq(E, r.f['$items'])
    if isinstance(v, (tuple, SSeq)): return stack_seq(E, E.as_seq(v))
    raise Unsupported(f'array from {v!r}')


def stack_seq(E, seq):
    segs = E.norm_segs(seq)
    if not segs: return STensor([Axis(z3.IntVal(0))], [E.idx('a')], z3.RealVal(0))
    k = E.idx('a')
    if len(segs) == 1 and type(segs[0]) is Comp:
        s = segs[0]
        if s.cond is True:
            t = as_tensor(E, subst(s.body, [(s.var, k)])) if not isinstance(s.body, SIte) else as_tensor_ite(E, subst(s.body, [(s.var, k)]), k)
            for a in t.axes:
                if isz(a.n) and contains(a.n, k): raise Unsupported('ragged array')
            return STensor((Axis(s.n),) + t.axes, (k,) + t.ivars, t.body)
        n = E.count(s.n, s.var, s.cond)
        idx = E.sel(s.n, s.var, s.cond, k)
        t = as_tensor(E, subst(s.body, [(s.var, idx)]))
        return STensor((Axis(n),) + t.axes, (k,) + t.ivars, t.body)
    if all(type(s) is Unit for s in segs):
        ts = [as_tensor(E, s.v) for s in segs]
        r = len(ts[0].axes)
        if any(len(t.axes) != r for t in ts): 
            raise Unsupported('ragged array')
        for t in ts[1:]:
            for x, y in zip(ts[0].axes, t.axes):
                if not E.proves_eq(real(x.n), real(y.n)):
                    if not E.branch(real(x.n) == real(y.n)): Raise(ValueError, 'inhomogeneous shape')
        iv = ts[0].ivars
        body = ts[-1].body
        body = subst(body, list(zip(ts[-1].ivars, iv)))
        for j in range(len(ts) - 2, -1, -1):
            body = ite(k == j, subst(ts[j].body, list(zip(ts[j].ivars, iv))), body)
        if len(ts) == 1: pass
        return STensor((Axis(z3.IntVal(len(ts))),) + ts[0].axes, (k,) + tuple(iv), body)
    # mixed: by position
    L = E.seq_len(SSeq(segs))
    raise Unsupported('array from an irregular list')


def same_axes(E, xs, ys):
    return len(xs) == len(ys) and all((a.key is None) == (b.key is None) and (a.key is None or same(a.key, b.key)) and E.proves_eq(real(a.n), real(b.n)) for a, b in zip(xs, ys))


def atoms(c):
    """The atomic conditions of a Boolean term."""
    out, st = [], [c]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR)): st.extend(x.children()); continue
        if not any(x.eq(y) for y in out): out.append(x)
    return out


def prune(E, v):
    """Drop the cases of a conditional value that cannot occur."""
    if not isinstance(v, SIte): return v
    if E.implied(v.c): return prune(E, v.a)
    if E.implied(Not(v.c)): return prune(E, v.b)
    pc = E.pc
    try:
        E.pc = pc + [v.c]; a = prune(E, v.a)
        E.pc = pc + [Not(v.c)]; b = prune(E, v.b)
    finally: E.pc = pc
    return SIte(v.c, a, b)


def as_tensor_ite(E, v, var=None):
    """A conditional element of a list of arrays: cases of one shape are merged, other cases are told apart by what
    does not depend on the place in the list (`var`)."""
    v = prune(E, v)
    if not isinstance(v, SIte): return as_tensor(E, v)
    if shapes_differ(E, v):
        conds = []
        def go(v):
            if isinstance(v, SIte): conds.extend(atoms(v.c)); go(v.a); go(v.b)
        go(v)
        for c in conds:
            if (var is None or not contains(c, var)) and not (E.implied(c) or E.implied(Not(c))):
                E.branch(c)
                return as_tensor_ite(E, v, var)
        raise Unsupported('list of arrays of different shapes')
    def merge(v):
        if not isinstance(v, SIte): return as_tensor(E, v)
        a, b = merge(v.a), merge(v.b)
        return STensor(a.axes, a.ivars, ite(v.c, a.body, subst(b.body, list(zip(b.ivars, a.ivars)))))
    return merge(v)


def shapes_differ(E, v):
    """Do the cases of a conditional value have different shapes?"""
    shapes = []
    def go(v):
        if isinstance(v, SIte): go(v.a); go(v.b); return
        shapes.append(as_tensor(E, v).axes)
    go(v)
    return not all(same_axes(E, shapes[0], s) for s in shapes[1:])


def scalar(t):
    """Rank-0 tensors are numbers."""
    return t.body if not t.axes else t


def elementwise(E, f, *vs):
    ts = [as_tensor(E, v) for v in vs]
    axes, ivs = broadcast_axes(E, ts)
    bodies = [subst(t.body, m) for t, m in zip(ts, ivs[1])]
    def leaf(xs):
        for q, x in enumerate(xs):
            if isinstance(x, SIte):
                return ite(x.c, leaf(xs[:q] + [x.a] + xs[q+1:]), leaf(xs[:q] + [x.b] + xs[q+1:]))
        return f(*xs)
    return scalar(STensor(axes, ivs[0], leaf(bodies)))


def elementwise2(E, f, a, b):
    return elementwise(E, f, a, b)


def broadcast_axes(E, ts):
    """Common axes (right aligned) and the index substitution of every operand."""
    full = [t for t in ts if t.axes]
    if not full: return [], ((), [[] for _ in ts])
    lead = max(full, key=lambda t: len(t.axes))
    r = len(lead.axes)
    out, iv = [], []
    maps = [[] for _ in ts]
    for p in range(1, r + 1):
        cand = [(q, t.axes[-p], t.ivars[-p]) for q, t in enumerate(ts) if len(t.axes) >= p]
        keys = [a.key for _, a, _ in cand if a.key is not None]
        var = E.idx('x')
        if keys:
            for q, a, v in cand:
                if a.key is None:
                    # a plain axis against a group: only length one at the very front of a reshaped scalar is supported
                    if z3.is_int_value(z3.simplify(real(a.n))) and z3.simplify(real(a.n)).as_long() == 1:
                        maps[q].append((v, z3.IntVal(0))); continue
                    raise Unsupported('broadcast of an array of unknown rank')
                if not same(a.key, keys[0]) and not (isz(a.key) and E.implied(a.key == keys[0])):
                    raise Unsupported('broadcast of arrays of different unknown shapes')
                maps[q].append((v, var))
            g = [a for _, a, _ in cand if a.key is not None][0]
            out.append(Axis(g.n, g.key, g.rank)); iv.append(var)
            continue
        n = None
        for q, a, v in cand:
            an = z3.simplify(real(a.n))
            if z3.is_int_value(an) and an.as_long() == 1: continue
            if n is None: n = an
            elif not E.proves_eq(n, an):
                if E.branch(n == an): continue
                if E.branch(an == 1): continue
                if E.branch(n == 1): n = an; continue
                Raise(ValueError, 'operands could not be broadcast together')
        if n is None: n = z3.IntVal(1)
        for q, a, v in cand:
            an = z3.simplify(real(a.n))
            if E.proves_eq(an, n): maps[q].append((v, var))
            else: maps[q].append((v, z3.IntVal(0)))
        out.append(Axis(n)); iv.append(var)
    out.reverse(); iv.reverse()
    return out, (tuple(iv), maps)


def is_unit(a):
    n = z3.simplify(real(a.n))
    return a.key is None and z3.is_int_value(n) and n.as_long() == 1


def rank_of(E, axes):
    c, t = 0, None
    for a in axes:
        if a.key is None and isinstance(a.rank, int): c += a.rank
        else: t = real(a.rank) if t is None else t + real(a.rank)
    return c if t is None else z3.simplify(t + c)


def shape_of(E, t):
    segs = []
    for a in t.axes:
        if a.key is None and not isinstance(a.rank, int):
            segs.append(Comp(a.rank, E.idx('d'), True, 1))
        elif a.key is None:
            n = z3.simplify(real(a.n)); segs.append(Unit(n.as_long() if z3.is_int_value(n) else n))
        else:
            j = E.idx('d')
            f = z3.Function('dim', z3.IntSort(), z3.IntSort(), z3.IntSort())
            segs.append(Comp(a.rank, j, True, f(a.key, j)))
    return tuple(s.v for s in segs) if all(type(s) is Unit for s in segs) else SSeq(segs)


def iter_tensor(E, t):
    if not t.axes: Raise(TypeError, 'iteration over a 0-d array')
    a = t.axes[0]
    if a.key is not None: raise Unsupported('iteration over an array of unknown rank')
    n = z3.simplify(real(a.n))
    rest = STensor(t.axes[1:], t.ivars[1:], t.body)
    v = t.ivars[0]
    fresh = [E.idx('a') for _ in rest.ivars]
    rest = STensor(rest.axes, fresh, subst(rest.body, list(zip(rest.ivars, fresh))))
    if z3.is_int_value(n) and n.as_long() <= 8:
        return SSeq([Unit(scalar(subst(rest, [(v, z3.IntVal(j))]))) for j in range(n.as_long())])
    return SSeq([Comp(n, v, True, scalar(rest))])


def tensor_index(E, t, k):
    ks = list(k) if type(k) is tuple else [k]
    for q, x in enumerate(ks):
        if isinstance(x, (SIte, Last)): ks[q] = E.force(x)
    if sum(1 for x in ks if x is Ellipsis) == 0: ks.append(Ellipsis)
    e = [q for q, x in enumerate(ks) if x is Ellipsis][0]
    pre, post = ks[:e], ks[e+1:]
    axes, ivars, body = [], [], t.body
    src = list(zip(t.axes, t.ivars))
    npost = sum(1 for x in post if x is not None)
    npre = sum(1 for x in pre if x is not None)
    if npre + npost > len(src): Raise(IndexError, 'too many indices for array')
    subs = []
    masks = []
    def take(x, a, v):
        nonlocal body
        if isinstance(x, slice) and x.start is None and x.stop is None and x.step is None:
            axes.append(a); ivars.append(v); return
        if a.key is not None: raise Unsupported('index into an axis group')
        if isinstance(x, slice):
            if x.step in (None, 1):
                n = real(a.n)
                lo = x.start or 0
                hi = x.stop
                if isinstance(lo, int) and lo < 0: lo = z3.simplify(n + lo)
                if hi is None: hi = n
                elif isinstance(hi, int) and hi < 0: hi = z3.simplify(n + hi)
                lo, hi = real(lo), real(hi)
                if not E.proves_eq(hi, n) and not E.implied(hi <= n):
                    hi = z3.If(hi <= n, hi, n)
                ln = z3.simplify(hi - lo)
                if not E.implied(ln >= 0): ln = z3.If(ln >= 0, ln, z3.IntVal(0))
                w = E.idx('s')
                axes.append(Axis(ln)); ivars.append(w); subs.append((v, z3.simplify(w + lo))); return
            if x.step == -1 and x.start is None and x.stop is None:
                w = E.idx('s')
                axes.append(a); ivars.append(w); subs.append((v, z3.simplify(real(a.n) - 1 - w))); return
            raise Unsupported('array slice')
        if isnum(x) and not isinstance(x, float):
            x2 = real(x)
            if isinstance(x, int) and x < 0: x2 = z3.simplify(real(a.n) + x)
            ok = And(x2 >= 0, x2 < real(a.n))
            if not (z3.is_expr(x2) and E.opaque(x2)) and not E.branch(ok):
                if isinstance(x, int): Raise(IndexError, 'index out of bounds')
                raise Unsupported(f'possibly negative or out-of-range array index: {x2} of {a.n}')
            subs.append((v, x2)); return
        # boolean mask
        m = as_tensor(E, x) if not isinstance(x, H) or E.rec(x).kind != 'list' else None
        seq = E.as_seq(x) if m is None else iter_tensor(E, m)
        segs = E.norm_segs(seq)
        if len(segs) == 1 and type(segs[0]) is Comp and segs[0].cond is True and isbool(segs[0].body):
            s = segs[0]
            if not E.branch(real(s.n) == real(a.n)): Raise(IndexError, 'boolean index did not match')
            masks.append((len(axes), a, v, s))
            axes.append(('mask', s)); ivars.append(v)
            return
        if all(type(s) is Unit and isbool(s.v) for s in segs):
            if not E.branch(real(a.n) == len(segs)): Raise(IndexError, 'boolean index did not match')
            keep = [j for j, s in enumerate(segs) if E.branch(s.v)]
            w = E.idx('s')
            ix = z3.IntVal(keep[-1]) if keep else z3.IntVal(0)
            for q in range(len(keep) - 2, -1, -1): ix = z3.If(w == q, z3.IntVal(keep[q]), ix)
            masks.append((len(axes), a, v, tuple(keep)))
            axes.append(Axis(z3.IntVal(len(keep)))); ivars.append(w); subs.append((v, ix)); return
        raise Unsupported(f'array index {x!r}')
    it = 0
    for x in pre:
        if x is None: axes.append(Axis(z3.IntVal(1))); ivars.append(E.idx('n')); continue
        take(x, *src[it]); it += 1
    for a, v in src[it:len(src) - npost]:
        axes.append(a); ivars.append(v)
    it = len(src) - npost
    for x in post:
        if x is None: axes.append(Axis(z3.IntVal(1))); ivars.append(E.idx('n')); continue
        take(x, *src[it]); it += 1
    if len(masks) > 1:
        # several index lists are paired up (the diagonal of the selection)
        p0, a0, v0, m0 = masks[0]
        for p, a, v, m in masks[1:]:
            if type(m) is tuple or type(m0) is tuple:
                if type(m) is not type(m0) or len(m) != len(m0): raise Unsupported('paired masks')
                w0, w = ivars[p0], ivars[p]
                subs = [(x, subst(y, [(w, w0)])) for x, y in subs]
                axes[p] = None
                continue
            c1 = subst(m0.body, [(m0.var, v0)]); c2 = subst(m.body, [(m.var, v0)])
            i = E.idx()
            if not E.implied(z3.Implies(z3.And(i >= 0, i < real(m0.n)), subst(tobool(c1), [(v0, i)]) == subst(tobool(c2), [(v0, i)]))):
                raise Unsupported('paired masks differ')
            subs.append((v, v0)); axes[p] = None
        ivars = [v for q, v in enumerate(ivars) if axes[q] is not None]
        axes = [a for a in axes if a is not None]
    fa, fi = [], []
    for a, v in zip(axes, ivars):
        if type(a) is tuple and a[0] == 'mask':
            s = a[1]
            w = E.idx('s')
            n = E.count(s.n, s.var, s.body)
            subs.append((v, E.sel(s.n, s.var, s.body, w)))
            fa.append(Axis(n)); fi.append(w)
        else: fa.append(a); fi.append(v)
    # substitutions may chain (v -> v0 -> sel)
    for pr in subs: body = subst(body, [pr])
    return scalar(STensor(fa, fi, body))


def reduced_axes(E, t, axis):
    """Indices of the axes of t a reduction over `axis` removes."""
    r = len(t.axes)
    if axis is None: red = list(range(r))
    else:
        axis = E.force(axis)
        if isinstance(axis, int):
            if any(a.key is not None for a in t.axes): 
                if axis < 0 or any(a.key is not None for a in t.axes[:axis + 1]): raise Unsupported('axis of an array of unknown rank')
            if not -r <= axis < r: Raise(ValueError, 'axis out of bounds')
            red = [axis % r]
        else:
            segs = E.norm_segs(E.as_seq(axis))
            red = []
            for s in segs:
                if type(s) is Unit:
                    if not isinstance(s.v, int):
                        v = z3.simplify(real(s.v))
                        if not z3.is_int_value(v): raise Unsupported('symbolic axis')
                        red.append(v.as_long())
                    else: red.append(s.v)
                elif type(s) is Comp and s.cond is True:
                    c = z3.simplify(real(s.body) - s.var)
                    if not z3.is_int_value(c): raise Unsupported('symbolic axes')
                    c = c.as_long()
                    # the flat axes c .. c+n-1
                    tot = rank_of(E, t.axes[c:])
                    if any(a.key is not None for a in t.axes[:c]) or not E.proves_eq(real(tot), real(s.n)):
                        raise Unsupported('symbolic axes')
                    red.extend(range(c, r))
                else: raise Unsupported('symbolic axes')
            red = [x % r for x in red]
    return red


def reduce_mean(E, t, axis=None, keepdims=False):
    t = as_tensor(E, t)
    n = z3.IntVal(1)
    for q in reduced_axes(E, t, axis): n = n * real(t.axes[q].n)
    return E.binop(ast.Div, reduce_sum(E, t, axis, keepdims), z3.simplify(n))


def reduce_quant(E, t, is_any, axis=None, keepdims=False):
    """np.any / np.all: a truth value."""
    if keepdims: raise Unsupported('keepdims')
    t = as_tensor(E, t)
    red = reduced_axes(E, t, axis)
    if len(red) != len(t.axes): raise Unsupported('any/all over some axes')
    if not t.axes: return E.truth(t.body)
    b = tobool(E.truth(t.body))
    pre = And(*[z3.And(i >= 0, i < real(a.n)) for a, i in zip(t.axes, t.ivars)])
    return z3.Exists(list(t.ivars), z3.And(pre, b)) if is_any else z3.ForAll(list(t.ivars), z3.Implies(pre, b))


def reduce_sum(E, t, axis=None, keepdims=False):
    t = as_tensor(E, t)
    r = len(t.axes)
    red = reduced_axes(E, t, axis)
    if keepdims: raise Unsupported('keepdims')
    body = t.body
    def add(body, v, n):
        if isinstance(body, SIte): 
            if not contains(body.c, v): return ite(body.c, add(body.a, v, n), add(body.b, v, n))
            raise Unsupported('sum of mixed values')
        if isbool(body): body = real(body)
        return E.sum_term(n, v, True, body)
    for q in sorted(red, reverse=True):
        body = add(body, t.ivars[q], real(t.axes[q].n))
    keep = [q for q in range(r) if q not in red]
    return scalar(STensor([t.axes[q] for q in keep], [t.ivars[q] for q in keep], body))


def flatten(E, t):
    t = as_tensor(E, t)
    if not t.axes: return STensor([Axis(z3.IntVal(1))], [E.idx('f')], t.body)
    if len(t.axes) == 1: return STensor([Axis(t.axes[0].n)], t.ivars, t.body)
    f = E.idx('f')
    n = real(t.axes[0].n)
    rest = flatten(E, STensor(t.axes[1:], t.ivars[1:], t.body))
    m = real(rest.axes[0].n)
    body = subst(rest.body, [(rest.ivars[0], f % m), (t.ivars[0], f / m)])
    return STensor([Axis(z3.simplify(n * m))], [f], body)


def reshape(E, v, shape):
    """An array flattened, or with axes of length one added behind (or in front of) its own."""
    shape = E.force(shape)
    if not isinstance(shape, (tuple, SSeq, H)): shape = (shape,)
    segs = E.norm_segs(E.as_seq(E.iter_value(shape)))
    if len(segs) == 1 and type(segs[0]) is Unit and not isz(segs[0].v) and segs[0].v == -1: return flatten(E, v)
    t = as_tensor(E, v)
    own = E.norm_segs(E.as_seq(shape_of(E, t)))
    def eq(a, b):
        if type(a) is Unit and type(b) is Unit: return E.proves_eq(real(a.v), real(b.v))
        if type(a) is Comp and type(b) is Comp:
            return a.cond is True and b.cond is True and E.proves_eq(real(a.n), real(b.n)) and same(subst(a.body, [(a.var, b.var)]), b.body)
        return False
    def one(s):
        if type(s) is Unit: return Axis(z3.IntVal(1)) if isnum(s.v) and E.proves_eq(real(s.v), z3.IntVal(1)) else None
        if type(s) is Comp and s.cond is True and isnum(s.body) and E.proves_eq(real(s.body), z3.IntVal(1)): return Axis(z3.IntVal(1), None, real(s.n))
        return None
    k = len(own)
    for front in range(len(segs) - k + 1):
        before, mid, after = segs[:front], segs[front:front + k], segs[front + k:]
        if not all(eq(x, y) for x, y in zip(mid, own)): continue
        pre, post = [one(s) for s in before], [one(s) for s in after]
        if any(a is None for a in pre + post): continue
        return STensor(pre + list(t.axes) + post, [E.idx('x') for _ in pre] + list(t.ivars) + [E.idx('x') for _ in post], t.body)
    raise Unsupported('array order reshape')


def squeeze(E, v, axis=None):
    t = as_tensor(E, v)
    if axis is not None: raise Unsupported('squeeze axis')
    axes, iv, body = [], [], t.body
    for a, x in zip(t.axes, t.ivars):
        if a.key is not None: raise Unsupported('squeeze of unknown rank')
        if E.branch(real(a.n) == 1): body = subst(body, [(x, z3.IntVal(0))])
        else: axes.append(a); iv.append(x)
    return STensor(axes, iv, body)


def broadcast_to(E, v, shape):
    t = as_tensor(E, v)
    shape = E.force(shape)
    segs = E.norm_segs(E.as_seq(E.iter_value(shape)))
    axes = []
    for s in segs:
        if type(s) is Unit: axes.append(Axis(real(E.force(s.v))))
        else:
            # a group of unknown rank
            j = s.body
            if isz(j) and j.decl().name() == 'dim' and s.cond is True:
                key = j.arg(0)
                n = E.group_size(key)
                axes.append(Axis(n, key, s.n))
            else: raise Unsupported('broadcast shape')
    is_one = is_unit
    grouped = any(a.key is not None or not isinstance(a.rank, int) for a in list(t.axes) + axes)
    if grouped:
        rt, rs = real(rank_of(E, t.axes)), real(rank_of(E, axes))
        if not E.branch(rt <= rs): Raise(ValueError, 'input operand has more dimensions')
        iv = [E.idx('b') for _ in axes]
        maps = []
        if all(is_one(a) for a in t.axes): maps = [(v2, z3.IntVal(0)) for v2 in t.ivars]
        elif E.proves_eq(rt, rs):
            q = 0
            for a, w in zip(axes, iv):
                if q >= len(t.axes): raise Unsupported('broadcast of unknown rank')
                b, v2 = t.axes[q], t.ivars[q]
                if a.key is None:
                    if b.key is not None or not isinstance(b.rank, int): raise Unsupported('broadcast of unknown rank')
                    if E.branch(real(b.n) == real(a.n)): maps.append((v2, w))
                    elif E.branch(real(b.n) == 1): maps.append((v2, z3.IntVal(0)))
                    else: Raise(ValueError, 'could not broadcast')
                    q += 1; continue
                if b.key is not None:
                    if not same(b.key, a.key) and not E.implied(b.key == a.key): raise Unsupported('broadcast of unknown rank')
                    maps.append((v2, w)); q += 1; continue
                got = z3.IntVal(0)
                while q < len(t.axes) and not E.proves_eq(got, real(a.rank)):
                    if not is_one(t.axes[q]): raise Unsupported('broadcast of unknown rank')
                    maps.append((t.ivars[q], z3.IntVal(0))); got = z3.simplify(got + real(t.axes[q].rank)); q += 1
                if not E.proves_eq(got, real(a.rank)): raise Unsupported('broadcast of unknown rank')
            for b, v2 in zip(t.axes[q:], t.ivars[q:]):
                if not is_one(b): raise Unsupported('broadcast of unknown rank')
                maps.append((v2, z3.IntVal(0)))
        elif len(t.axes) <= len(axes) and all((a.key is None) == (b.key is None) and (a.key is None or same(a.key, b.key)) and isinstance(a.rank, int) == isinstance(b.rank, int)
                                              for a, b in zip(t.axes, axes[len(axes) - len(t.axes):])):
            # the trailing axes match one to one
            off = len(axes) - len(t.axes)
            for a, v2, b, w in zip(t.axes, t.ivars, axes[off:], iv[off:]):
                if a.key is not None or not isinstance(a.rank, int) or E.branch(real(a.n) == real(b.n)): maps.append((v2, w))
                elif E.branch(real(a.n) == 1): maps.append((v2, z3.IntVal(0)))
                else: Raise(ValueError, 'could not broadcast')
        else: raise Unsupported('broadcast of unknown rank')
        return STensor(axes, iv, subst(t.body, maps))
    if len(t.axes) > len(axes): Raise(ValueError, 'input operand has more dimensions')
    maps, iv = [], []
    off = len(axes) - len(t.axes)
    for q, a in enumerate(axes):
        w = E.idx('b'); iv.append(w)
        if q >= off:
            b, v2 = t.axes[q - off], t.ivars[q - off]
            if E.branch(real(b.n) == real(a.n)): maps.append((v2, w))
            elif E.branch(real(b.n) == 1): maps.append((v2, z3.IntVal(0)))
            else: Raise(ValueError, 'could not broadcast')
    return STensor(axes, iv, subst(t.body, maps))


def einsum_outer(E, spec, *ops):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->')
    ins = ins.split(',')
    ts = [as_tensor(E, o) for o in ops]
    fr = [[E.idx('e') for _ in t.ivars] for t in ts]
    ts = [STensor(t.axes, f, subst(t.body, list(zip(t.ivars, f)))) for t, f in zip(ts, fr)]
    lead, rests = {}, []
    for s, t in zip(ins, ts):
        letters = s.replace('...', '')
        ell = '...' in s
        if ell and not s.endswith('...'): raise Unsupported('einsum')
        if len(letters) > len(t.axes) or (not ell and len(letters) != len(t.axes)): Raise(ValueError, 'einsum')
        for c, a, v in zip(letters, t.axes, t.ivars): lead.setdefault(c, []).append((a, v))
        rests.append(STensor(t.axes[len(letters):], t.ivars[len(letters):], 0))
    axes, (iv, maps) = broadcast_axes(E, rests)
    bodies = [subst(t.body, m) for t, m in zip(ts, maps)]
    olet = out.replace('...', '')
    new, subs = [], []
    for c, av in lead.items():
        w = E.idx('e')
        for a, v in av:
            if a.key is not None: raise Unsupported('einsum over a group')
            if not E.branch(real(a.n) == real(av[0][0].n)): Raise(ValueError, 'einsum dimension mismatch')
            subs.append((v, w))
        new.append((c, av[0][0], w))
    bodies = [subst(b, subs) for b in bodies]
    prod = bodies[0]
    for b in bodies[1:]: prod = arith(E, ast.Mult, prod, b)
    fa = [next((a, w) for c, a, w in new if c == x) for x in olet]
    red = [(a, w) for c, a, w in new if c not in olet]
    for a, w in red: prod = E.sum_term(real(a.n), w, True, prod)
    if '...' not in out:
        for a, w in zip(axes, iv): prod = E.sum_term(real(a.n), w, True, prod)
        axes, iv = [], ()
    return scalar(STensor([a for a, _ in fa] + list(axes), [w for _, w in fa] + list(iv), prod))


def ufn(E, name, x):
    """Uninterpreted real function (log, exp, ...), exact on concrete arguments that have exact values."""
    if isz(x) or isnum(x):
        if name == 'log' and not isz(x) and x == 1: return 0
        if name == 'exp' and not isz(x) and x == 0: return 1
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        t = real(x)
        return f(z3.ToReal(t) if t.is_int() else t)
    raise Unsupported(f'{name} of {x!r}')


# ---------------------------------------------------------------------- arithmetic
NATIVE = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.Pow: operator.pow, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.MatMult: operator.matmul,
          ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor}
DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.FloorDiv: 'floordiv',
          ast.Mod: 'mod', ast.MatMult: 'matmul', ast.BitOr: 'or', ast.BitAnd: 'and'}


def arith(E, op, a, b):
    """Numbers."""
    if isinstance(a, SIte): return ite(a.c, arith(E, op, a.a, b), arith(E, op, a.b, b))
    if isinstance(b, SIte): return ite(b.c, arith(E, op, a, b.a), arith(E, op, a, b.b))
    if not isz(a) and not isz(b):
        try:
            if isinstance(a, float) or isinstance(b, float):
                # exact arithmetic on the decimal values of the literals
                if op in (ast.Add, ast.Sub, ast.Mult, ast.Div) and all(abs(float(x)) != float('inf') and x == x for x in (a, b)):
                    fa, fb = (Fraction(repr(x)) if isinstance(x, float) else Fraction(x) for x in (a, b))
                    if op is ast.Div and fb == 0: pass
                    else: return NATIVE[op](fa, fb)
            elif op is ast.Div and b != 0: return Fraction(a) / Fraction(b)
            return NATIVE[op](a, b)
        except ZeroDivisionError as e:
            from .engine import Raised
            raise Raised(e)
    if isinstance(a, float) and a in (float('inf'), float('-inf')) or isinstance(b, float) and b in (float('inf'), float('-inf')):
        raise Unsupported('infinite operand')
    x, y = real(a), real(b)
    if op is ast.Add: return x + y
    if op is ast.Sub: return x - y
    if op is ast.Mult: return x * y
    if op is ast.Div:
        x = z3.ToReal(x) if x.is_int() else x
        y = z3.ToReal(y) if y.is_int() else y
        return x / y
    if op is ast.Pow:
        if not isz(b) or z3.is_int_value(b) or z3.is_rational_value(b):
            e = Fraction(repr(b)) if isinstance(b, float) else Fraction(b) if not isz(b) else Fraction(b.as_long()) if z3.is_int_value(b) else b.as_fraction()
            if e.denominator == 1 and abs(e) <= 12:
                r = None
                for _ in range(abs(int(e))): r = x if r is None else r * x
                if r is None: return 1
                if e < 0:
                    r = z3.ToReal(r) if r.is_int() else r
                    return z3.RealVal(1) / r
                return r
            if e == Fraction(1, 2): return ufn(E, 'sqrt', x)
        f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
        return f(z3.ToReal(x) if x.is_int() else x, z3.ToReal(y) if y.is_int() else y)
    if op is ast.FloorDiv and x.is_int() and y.is_int():
        if not E.implied(y > 0): raise Unsupported('floor division')
        return x / y
    if op is ast.Mod and x.is_int() and y.is_int():
        if not E.implied(y > 0): raise Unsupported('modulo')
        return x % y
    raise Unsupported(f'{op.__name__} on numbers')


def is_array(E, v):
    return isinstance(v, (STensor, np.ndarray)) or (isinstance(v, H) and E.rec(v).kind == 'nd')


def constant(v):
    """A sympy number such as 2*pi as the real number it is."""
    import sympy
    if not isinstance(v, sympy.Expr) or not v.is_number: return v
    if v.is_Rational: return Fraction(int(v.p), int(v.q))
    if v is sympy.pi: return z3.Real('pi')
    if v.is_Add or v.is_Mul:
        xs = [constant(x) for x in v.args]
        if any(isinstance(x, sympy.Expr) for x in xs): return v
        r = real(xs[0])
        for x in xs[1:]: r = r + real(x) if v.is_Add else r * real(x)
        return r
    return v


def binop(E, op, a, b):
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    num = lambda v: isnum(v) or isbool(v)
    if isz(a) or isz(b): a, b = constant(a), constant(b)
    if op in (ast.BitAnd, ast.BitOr) and isbool(a) and isbool(b) and (isz(a) or isz(b)):
        return And(a, b) if op is ast.BitAnd else Or(a, b)
    if num(a) and num(b):
        if isbool(a) and isz(a): a = real(a)
        if isbool(b) and isz(b): b = real(b)
        return arith(E, op, a, b)
    if is_array(E, a) or is_array(E, b):
        if op is ast.MatMult: return matmul(E, a, b)
        if (a is None or b is None): Raise(TypeError, 'unsupported operand')
        if isinstance(a, H) and E.rec(a).kind == 'obj' or isinstance(b, H) and E.rec(b).kind == 'obj': pass
        elif isinstance(a, SRef) or isinstance(b, SRef): raise Unsupported('array of symbols')
        else: return elementwise(E, lambda x, y: arith(E, op, x, y), a, b)
    if isinstance(a, H) or isinstance(b, H):
        ra = E.rec(a) if isinstance(a, H) else None
        rb = E.rec(b) if isinstance(b, H) else None
        if ra is not None and ra.kind == 'obj' or rb is not None and rb.kind == 'obj':
            nm = DUNDER.get(op)
            if ra is not None and ra.kind == 'obj':
                m = E.class_attr(ra.cls, f'__{nm}__')
                if m is not MISSING: return E.call(E.bind_attr(m, a, ra.cls), [b])
            if rb is not None and rb.kind == 'obj':
                m = E.class_attr(rb.cls, f'__r{nm}__')
                if m is not MISSING: return E.call(E.bind_attr(m, b, rb.cls), [a])
            Raise(TypeError, 'unsupported operand')
        ka = ra.kind if ra else None
        kb = rb.kind if rb else None
        if op is ast.Add and ka == kb == 'list':
            return E.new_list(ra.f['$c'].segs + rb.f['$c'].segs)
        if op is ast.Mult and (ka == 'list' and num(b) or kb == 'list' and num(a)):
            return repeat(E, ra if ka == 'list' else rb, b if ka == 'list' else a)
        if ka == 'set' and kb == 'set' or (ka == 'set' and isinstance(b, (set, frozenset))) or (kb == 'set' and isinstance(a, (set, frozenset))):
            sa, sb = set_content(E, a), set_content(E, b)
            if op is ast.BitOr: return make_set(E, SSeq(sa.segs + sb.segs))
            if op is ast.Sub: return set_filter(E, sa, sb, False)
            if op is ast.BitAnd: return set_filter(E, sa, sb, True)
        if ka == 'dict' and kb == 'dict' and op is ast.BitOr:
            return E.new_dict(ra.f['$c'].ops + rb.f['$c'].ops, ra.cls)
        raise Unsupported(f'{op.__name__} on {a!r}, {b!r}')
    if op is ast.Add and isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        return SSeq(E.as_seq(a).segs + E.as_seq(b).segs)
    if op is ast.Mult and isinstance(a, (tuple, SSeq)) != isinstance(b, (tuple, SSeq)):
        q, m = (a, b) if isinstance(a, (tuple, SSeq)) else (b, a)
        m = E.force(m)
        if isinstance(m, int):
            if isinstance(q, tuple): return q * m
            return SSeq(list(E.as_seq(q).segs) * m)
        if isz(m) and z3.is_int(m):
            if isinstance(q, tuple) and len(q) == 0: return ()
            if isinstance(q, tuple) and len(q) == 1:
                n = m if E.implied(m >= 0) else z3.If(m >= 0, m, z3.IntVal(0))
                return SSeq([Comp(n, E.idx('r'), True, q[0])])
            raise Unsupported('repetition of a tuple')
    if op is ast.Mod and isinstance(a, str):
        return str_percent(E, a, b)
    if op is ast.Add and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_concat(E, [a, b])
    if isinstance(a, SRef) or isinstance(b, SRef):
        h = getattr(E, 'sym_binop', None)
        if h is not None: return h(E, op, a, b)
        raise Unsupported('symbolic expression arithmetic')
    if not engine_any([a, b]):
        try: return NATIVE[op](a, b)
        except Exception as e:
            from .engine import Raised
            raise Raised(e)
    raise Unsupported(f'{op.__name__} on {a!r}, {b!r}')


def sym_op(E, nm, v):
    h = getattr(E, 'sym_unop', None)
    if h is not None: return h(E, nm, v)
    raise Unsupported('symbolic expression arithmetic')


def matmul(E, a, b):
    a, b = as_tensor(E, a), as_tensor(E, b)
    if len(a.axes) == 2 and len(b.axes) == 2: return einsum_outer(E, 'ij,jk->ik', a, b)
    if len(a.axes) == 2 and len(b.axes) == 1: return einsum_outer(E, 'ij,j->i', a, b)
    if len(a.axes) == 1 and len(b.axes) == 2: return einsum_outer(E, 'i,ij->j', a, b)
    if len(a.axes) == 1 and len(b.axes) == 1: return einsum_outer(E, 'i,i->', a, b)
    raise Unsupported('matmul')


def repeat(E, r, n):
    segs = E.norm_segs(r.f['$c'])
    if isinstance(n, int): return E.new_list(list(segs) * n)
    if len(segs) == 1 and type(segs[0]) is Unit:
        if not E.implied(n >= 0): n = z3.If(n >= 0, n, z3.IntVal(0))
        return E.new_list([Comp(n, E.idx('r'), True, segs[0].v)])
    raise Unsupported('list repetition')


ORDER = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def order(E, op, a, b):
    if isinstance(a, np.generic): a = a.item()
    if isinstance(b, np.generic): b = b.item()
    num = lambda v: isnum(v) or isbool(v)
    O = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
    if num(a) and num(b):
        if not isz(a) and not isz(b): return O[op](a, b)
        for x in (a, b):
            if not isz(x) and isinstance(x, float) and abs(x) == float('inf'):
                if x is a: return O[op](a, 0)
                return O[op](0, b)
        return O[op](real(a), real(b))
    if is_array(E, a) or is_array(E, b):
        return elementwise(E, lambda x, y: order(E, op, x, y), a, b)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        ta = a.t if isinstance(a, SStr) else E.str_lit(a)
        tb = b.t if isinstance(b, SStr) else E.str_lit(b)
        if isinstance(a, str) and isinstance(b, str): return O[op](a, b)
        return O[op](ta, tb)
    if isinstance(a, H) and isinstance(b, H) and E.rec(a).kind == 'set' == E.rec(b).kind:
        x, y = E.as_seq(E.iter_value(a)), E.as_seq(E.iter_value(b))
        if op in (ast.Gt, ast.GtE): x, y = y, x
        r = subset(E, x, y)
        return r if op in (ast.LtE, ast.GtE) else And(r, Not(subset(E, y, x)))
    for x, y, o in ((a, b, op), (b, a, MIRROR[op])):
        if isinstance(x, H) and E.rec(x).kind == 'obj':
            m = E.class_attr(E.rec(x).cls, ORDER[o])
            if isinstance(m, (types.FunctionType, Closure)): return E.call(E.bind_attr(m, x, E.rec(x).cls), [y])
    if a is None or b is None: Raise(TypeError, 'not ordered')
    if engine_any([a, b]): raise Unsupported(f'comparison {a!r}, {b!r}')
    try: return O[op](a, b)
    except TypeError as e:
        from .engine import Raised
        raise Raised(e)


# ---------------------------------------------------------------------- strings
def str_of(E, v):
    v = E.force(v)
    if isinstance(v, (str, SStr)): return v
    if isinstance(v, SRef):
        f = E.schema_get(v, '$str')
        if f is not None: return f(E, v)
        return E.getattr(v, 'name')
    if isinstance(v, H):
        r = E.rec(v)
        if r.kind == 'obj':
            m = E.class_attr(r.cls, '__str__')
            if isinstance(m, types.FunctionType): return E.call(m, [v])
    if engine_any([v]): raise Unsupported(f'str of {v!r}')
    return str(v)


def opaque_str(E, parts):
    """An unspecified string (messages)."""
    return SStr(E.fresh('txt', z3.IntSort()))


def str_concat(E, parts):
    if all(isinstance(p, str) for p in parts): return ''.join(parts)
    if not engine_any(parts): return ''.join(str(p) for p in parts)
    if hasattr(E, 'str_build'):
        r = E.str_build(E, parts)
        if r is not None: return r
    return opaque_str(E, parts)


def str_percent(E, a, b):
    if not engine_any([b]): return a % b
    return opaque_str(E, [a, b])


def str_format(E, s, args, kwargs):
    if not engine_any(args) and not engine_any(kwargs.values()):
        return s.format(*args, **kwargs)
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit: parts.append(lit)
        if field is None: continue
        if spec or conv: return opaque_str(E, [])
        if field == '': parts.append(args[auto]); auto += 1
        elif field.isdigit(): parts.append(args[int(field)])
        elif field in kwargs: parts.append(kwargs[field])
        else: return opaque_str(E, [])
    ps = []
    for p in parts:
        p = E.force(p)
        try: ps.append(p if isinstance(p, (str, SStr, int, z3.ArithRef)) else str_of(E, p))
        except Unsupported: return opaque_str(E, parts)
    return str_concat(E, ps)


# ---------------------------------------------------------------------- sets
def make_set(E, seq):
    out = []
    for s in E.norm_segs(seq):
        if type(s) is Comp and s.cond is True and not contains(s.body, s.var):      # the same element again and again
            if not E.branch(real(s.n) > 0): continue
            s = Unit(s.body)
        if type(s) is Unit:
            dup = False
            for o in out:
                if type(o) is Unit:
                    c = E.decide(E.truth(E.eq(o.v, s.v)))
                else: c = E.decide(E.seq_contains(SSeq([o]), s.v))
                if c is True or (c is not False and E.branch(c)): dup = True; break
            if not dup: out.append(s)
        elif type(s) is Comp and type(s.body) is SIte:
            pre = And(s.var >= 0, s.var < real(s.n), s.cond)
            b = s.body
            while type(b) is SIte:
                if E.implied(Implies(pre, b.c)): b = b.a
                elif E.implied(Implies(pre, Not(b.c))): b = b.b
                else: break
            out.append(Comp(s.n, s.var, s.cond, b))
        else: out.append(s)      # duplicates stay: going over such a set is refused (see distinct_set)
    h = E.new_set(out)
    return h


def set_content(E, v):
    """The elements of a set, possibly with repetitions."""
    return E.getf(v, '$c') if isinstance(v, H) and E.rec(v).kind == 'set' else E.as_seq(E.iter_value(v))


def distinct_set(E, segs):
    """Does every element occur once?"""
    segs = E.norm_segs(SSeq(segs))
    if all(type(s) is Unit for s in segs): return True
    for k, s in enumerate(segs):
        if type(s) is Comp:
            if z3.is_int_value(z3.simplify(real(s.n))) and z3.simplify(real(s.n)).as_long() <= 1: pass
            elif isinstance(s.body, (H, SIte, STensor)) or E.solve_key(s.body, s.var, s.body) is None: return False
        elif type(s) is not Unit: return False
        for o in segs[:k]:
            if type(o) is Unit and type(s) is Unit: continue
            a, b = (o, s) if type(s) is Comp else (s, o)
            if type(a) is Unit: c = E.seq_contains(SSeq([b]), a.v)
            else: c = Implies(And(a.var >= 0, a.var < real(a.n), a.cond), Not(E.seq_contains(SSeq([b]), a.body))); c = not (c if isinstance(c, bool) else E.valid(c))
            if E.decide(c) is not False: return False
    return True


def set_filter(E, sa, sb, keep):
    out = []
    for s in E.norm_segs(sa):
        if type(s) is Unit:
            c = E.seq_contains(sb, s.v)
            if E.branch(c) == keep: out.append(s)
        elif type(s) is Comp:
            c = E.seq_contains(sb, s.body)
            out.append(Comp(s.n, s.var, And(s.cond, c if keep else Not(c)), s.body))
        else: raise Unsupported('set operation')
    return E.new_set(out)


# ---------------------------------------------------------------------- attributes of builtin kinds
def method(name):
    def deco(f):
        METHODS[name] = f
        return f
    return deco


METHODS = {}


def builtin_attr(E, h, r, name):
    from .engine import Raised
    key = (r.kind, name)
    if name == '__class__': return r.cls
    if key in METHODS:
        f = METHODS[key]
        return SFun(f'{r.kind}.{name}', lambda E, fn, args, kwargs, star, f=f: f(E, fn.data[0], *plain(args), **kwargs) if star is None else f(E, fn.data[0], *plain(args), _star=star, **kwargs), (h,))
    if r.kind == 'dict' and r.cls is not None and r.cls.__name__ == 'OptimizeResult':
        p, v = E.map_lookup(r.f['$c'], name)
        if E.branch(p): return v
        raise Raised(AttributeError(name))
    if r.kind == 'nd': return value_attr(E, r.f['$t'], name) if name not in ('flatten',) else value_attr(E, r.f['$t'], name)
    if r.cls is not None and r.cls not in (list, dict, set, tuple) and r.kind in ('list', 'dict'):
        ca = E.class_attr(r.cls, name)
        if ca is not MISSING and not hasattr(dict if r.kind == 'dict' else list, name):
            if name in r.f: return r.f[name]
            return E.bind_attr(ca, h, r.cls)
        if name in r.f: return r.f[name]
    base = {'list': list, 'dict': r.cls or dict, 'set': set, 'iter': type(iter([]))}.get(r.kind)
    if base is not None and hasattr(base, name): raise Unsupported(f'method {name} of {r.kind}')
    raise Raised(AttributeError(f'{r.kind} has no attribute {name}'))


def obj_attr(E, v, r, name):
    if issubclass(r.cls, tuple) and '$items' in r.f and name in ('index', 'count'): raise Unsupported('tuple method')
    return MISSING


@method(('list', 'append'))
def _(E, h, x): E.setf(h, '$c', SSeq(E.getf(h, '$c').segs + (Unit(x),)))
@method(('list', 'extend'))
def _(E, h, xs): E.setf(h, '$c', SSeq(E.getf(h, '$c').segs + E.as_seq(E.iter_value(xs)).segs))
@method(('list', 'copy'))
def _(E, h): return E.new_list(E.getf(h, '$c').segs)
@method(('list', 'index'))
def _(E, h, x):
    seq = E.getf(h, '$c')
    segs = E.norm_segs(seq)
    off = 0
    for s in segs:
        if type(s) is Unit:
            if E.branch(E.eq(s.v, x)): return off
            off = off + 1
        elif type(s) is Comp and s.cond is True:
            t = E.solve_key(s.body, s.var, x)
            if t is None: raise Unsupported('list.index')
            if E.branch(And(t >= 0, t < real(s.n), E.eq(subst(s.body, [(s.var, t)]), x))): return z3.simplify(t + off)
            off = z3.simplify(real(s.n) + off)
        elif type(s) is Comp:
            t = E.solve_key(s.body, s.var, x)
            if t is None: raise Unsupported('list.index')
            if E.branch(And(t >= 0, t < real(s.n), subst(s.cond, [(s.var, t)]), E.eq(subst(s.body, [(s.var, t)]), x))):
                j = E.idx(); r = subst(E.count(j, s.var, s.cond), [(j, t)])
                return z3.simplify(r + off)
            off = z3.simplify(real(E.seg_len(s)) + off)
        else: raise Unsupported('list.index')
    Raise(ValueError, 'not in list')
@method(('list', 'pop'))
def _(E, h, k=-1):
    c = E.getf(h, '$c')
    v = E.seq_get(c, k)
    if k == -1: E.setf(h, '$c', E.seq_slice(c, None, -1))
    elif k == 0: E.setf(h, '$c', E.seq_slice(c, 1, None))
    else: raise Unsupported('list.pop')
    return v
@method(('list', 'insert'))
def _(E, h, k, x):
    c = E.getf(h, '$c')
    if k == 0: E.setf(h, '$c', SSeq((Unit(x),) + c.segs)); return
    raise Unsupported('list.insert')
@method(('list', 'sort'))
def _(E, h, key=None, reverse=False):
    E.setf(h, '$c', sort_seq(E, E.getf(h, '$c'), key, reverse))
@method(('list', 'reverse'))
def _(E, h): E.setf(h, '$c', E.seq_reverse(E.getf(h, '$c')))
@method(('list', 'remove'))
def _(E, h, x):
    segs = E.norm_segs(E.getf(h, '$c'))
    for q, s in enumerate(segs):
        if type(s) is not Unit: raise Unsupported('list.remove')
        if E.branch(E.eq(s.v, x)):
            E.setf(h, '$c', SSeq(segs[:q] + segs[q+1:])); return
    Raise(ValueError, 'not in list')
@method(('list', 'count'))
def _(E, h, x):
    t = 0
    for s in E.norm_segs(E.getf(h, '$c')):
        if type(s) is Unit: t = t + (1 if E.branch(E.eq(s.v, x)) else 0)
        elif type(s) is Comp: t = t + E.sum_term(s.n, s.var, And(s.cond, E.truth(E.eq(s.body, x))), z3.IntVal(1))
        else: raise Unsupported('count')
    return t


def view(E, name, seq, h):
    return SFun(name, None, (seq, h), cls='$view')


@method(('dict', 'items'))
def _(E, h): return view(E, 'items', E.items(E.getf(h, '$c')), h)
@method(('dict', 'keys'))
def _(E, h): return view(E, 'keys', E.map_seq(E.items(E.getf(h, '$c')), lambda kv: kv[0]), h)
@method(('dict', 'values'))
def _(E, h): return view(E, 'values', E.map_seq(E.items(E.getf(h, '$c')), lambda kv: kv[1]), h)
@method(('dict', 'get'))
def _(E, h, k, d=None):
    p, v = E.map_lookup(E.getf(h, '$c'), k)
    if p is True: return v
    if p is False: return d
    return ite(p, v, d) if not any(isinstance(x, H) for x in (v, d)) else (v if E.branch(p) else d)
@method(('dict', 'update'))
def _(E, h, m=None, _star=None, **kw):
    ops = E.getf(h, '$c').ops
    if m is not None:
        m = E.force(m)
        if isinstance(m, (H, dict, types.MappingProxyType)) and not (isinstance(m, H) and E.rec(m).kind in ('list', 'iter')):
            ops = ops + E.as_map(m).ops
        else: ops = ops + tuple(E.pairs_to_ops(E.as_seq(E.iter_value(m))))
    if _star is not None: ops = ops + _star.ops
    ops = ops + tuple(('set', k, v) for k, v in kw.items())
    E.setf(h, '$c', SMap(ops))
@method(('dict', 'pop'))
def _(E, h, k, *d):
    p, v = E.map_lookup(E.getf(h, '$c'), k)
    if E.branch(p):
        E.setf(h, '$c', SMap(E.getf(h, '$c').ops + (('del', k),)))
        return v
    if d: return d[0]
    from .engine import Raised
    raise Raised(KeyError(repr(k)))
@method(('dict', 'setdefault'))
def _(E, h, k, d=None):
    p, v = E.map_lookup(E.getf(h, '$c'), k)
    if E.branch(p): return v
    E.setf(h, '$c', SMap(E.getf(h, '$c').ops + (('set', k, d),)))
    return d
@method(('dict', 'copy'))
def _(E, h):
    r = E.rec(h)
    return E.new_dict(r.f['$c'].ops, r.cls)
@method(('dict', 'clear'))
def _(E, h): E.setf(h, '$c', SMap())


def dict_missing(E, h, r, k):
    from .engine import Raised
    if r.cls is collections.Counter: return 0
    if issubclass(r.cls, collections.defaultdict) and r.f.get('$factory') is not None:
        v = E.call(r.f['$factory'], [])
        E.setitem(h, k, v)
        return v
    raise Raised(KeyError(k if isinstance(k, str) else repr(k)))


@method(('set', 'add'))
def _(E, h, x): E.setf(h, '$c', E.rec(make_set(E, SSeq(E.getf(h, '$c').segs + (Unit(x),)))).f['$c'])
@method(('set', 'update'))
def _(E, h, *xs):
    segs = E.getf(h, '$c').segs
    for x in xs: segs = segs + E.as_seq(E.iter_value(x)).segs
    E.setf(h, '$c', E.rec(make_set(E, SSeq(segs))).f['$c'])
@method(('set', 'union'))
def _(E, h, *xs):
    segs = E.getf(h, '$c').segs
    for x in xs: segs = segs + set_content(E, x).segs
    return make_set(E, SSeq(segs))
@method(('set', 'intersection'))
def _(E, h, x): return set_filter(E, E.getf(h, '$c'), set_content(E, x), True)
@method(('set', 'difference'))
def _(E, h, x): return set_filter(E, E.getf(h, '$c'), set_content(E, x), False)
@method(('set', 'issubset'))
def _(E, h, x): return subset(E, E.getf(h, '$c'), E.as_seq(E.iter_value(x)))


def subset(E, a, b):
    cs = []
    for s in E.norm_segs(a):
        if type(s) is Unit: cs.append(E.seq_contains(b, s.v))
        else:
            i = E.idx()
            cs.append(E.forall(i, Implies(And(i >= 0, i < real(s.n), subst(s.cond, [(s.var, i)])), E.seq_contains(b, subst(s.body, [(s.var, i)])))))
    return And(*cs)


# ---- __dict__ of an object
def dp_handle(v): return v.data[0]
def dict_proxy_map(E, v):
    r = E.rec(dp_handle(v))
    ops = []
    for k, x in r.f.items():
        if k.startswith('$') or x is MISSING: continue
        if E.may_be_missing(x):
            if E.force(x) is MISSING: continue
            x = E.force(x)
        ops.append(('set', k, x))
    return SMap(ops)
def dict_proxy_attr(E, v, name):
    if name == 'items': return SFun('items', lambda E, fn, a, k, s: view(E, 'items', E.items(dict_proxy_map(E, v)), dp_handle(v)), (v,))
    if name == 'keys': return SFun('keys', lambda E, fn, a, k, s: view(E, 'keys', E.map_seq(E.items(dict_proxy_map(E, v)), lambda kv: kv[0]), dp_handle(v)), (v,))
    if name == 'values': return SFun('values', lambda E, fn, a, k, s: view(E, 'values', E.map_seq(E.items(dict_proxy_map(E, v)), lambda kv: kv[1]), dp_handle(v)), (v,))
    if name == 'copy': return SFun('copy', lambda E, fn, a, k, s: E.new_dict(dict_proxy_map(E, v).ops), (v,))
    if name == 'get':
        def g(E, fn, a, k, s):
            p, x = E.map_lookup(dict_proxy_map(E, v), a[0])
            return x if E.branch(p) else (a[1] if len(a) > 1 else None)
        return SFun('get', g, (v,))
    if name == 'pop':
        def g(E, fn, a, k, s):
            m = dict_proxy_map(E, v)
            p, x = E.map_lookup(m, a[0])
            if E.branch(p):
                dict_proxy_del(E, v, a[0]); return x
            if len(a) > 1: return a[1]
            Raise(KeyError, repr(a[0]))
        return SFun('pop', g, (v,))
    if name == 'update':
        def g(E, fn, a, k, s):
            if s is not None: raise Unsupported('__dict__.update(**symbolic)')
            if a:
                for kv in E.norm_segs(E.items(E.as_map(a[0]) if not (isinstance(a[0], SFun) and a[0].cls == '__dict__') else dict_proxy_map(E, a[0]))):
                    if type(kv) is not Unit or not isinstance(kv.v[0], str): raise Unsupported('__dict__.update')
                    E.setf(dp_handle(v), kv.v[0], kv.v[1])
            for n, x in k.items(): E.setf(dp_handle(v), n, x)
        return SFun('update', g, (v,))
    raise Unsupported(f'__dict__.{name}')
def dict_proxy_get(E, v, k):
    p, x = E.map_lookup(dict_proxy_map(E, v), k)
    if not E.branch(p): Raise(KeyError, repr(k))
    return x
def dict_proxy_set(E, v, k, x):
    if not isinstance(k, str): raise Unsupported('__dict__[symbolic]')
    E.setf(dp_handle(v), k, x)
def dict_proxy_del(E, v, k):
    h = dp_handle(v)
    if not isinstance(k, str): raise Unsupported('del __dict__[symbolic]')
    r = E.rec(h)
    if r.f.get(k, MISSING) is MISSING: Raise(KeyError, k)
    E.store(h, r.set(k, MISSING))
def dict_proxy_has(E, v, k):
    return E.map_lookup(dict_proxy_map(E, v), k)[0]


# ---- attributes of values
def value_attr(E, v, name):
    from .engine import Raised
    F = lambda f: SFun(name, lambda E, fn, args, kwargs, star: py(f)(E, [fn.data[0], *args], kwargs, star), (v,))
    if isinstance(v, STensor) or isnum(v) or isbool(v):
        t = as_tensor(E, v)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and name == 'shape' and not isz(v):
            if isinstance(v, (int, float)) and not getattr(E, 'np_scalars', True): raise Raised(AttributeError('shape'))
        if name == 'shape': return shape_of(E, t)
        if name == 'ndim': return rank_of(E, t.axes)
        if name == 'size':
            n = z3.IntVal(1)
            for a in t.axes: n = n * real(a.n)
            n = z3.simplify(n)
            return n.as_long() if z3.is_int_value(n) else n
        if name == 'T': return STensor(t.axes[::-1], t.ivars[::-1], t.body)
        if name == 'dtype': return np.dtype(float)
        if name == 'real': return v
        if name == 'flatten' or name == 'ravel': return F(lambda E, x, order='C': flatten(E, x) if order == 'C' else no_order(order))
        if name == 'sum': return F(lambda E, x, axis=None, keepdims=False: reduce_sum(E, x, axis, keepdims))
        if name == 'mean': return F(lambda E, x, axis=None, keepdims=False: reduce_mean(E, x, axis, keepdims))
        if name in ('any', 'all'): return F(lambda E, x, axis=None, keepdims=False: reduce_quant(E, x, name == 'any', axis, keepdims))
        if name == 'copy': return F(lambda E, x: x)
        if name == 'astype': return F(lambda E, x, d: x)
        if name == 'tolist': return F(lambda E, x: E.new_list(iter_tensor(E, as_tensor(E, x)).segs))
        if name == 'dot': return F(lambda E, x, y: matmul(E, x, y))
        if name == 'squeeze': return F(lambda E, x: squeeze(E, x))
        if name == 'transpose': return F(lambda E, x: STensor(as_tensor(E, x).axes[::-1], as_tensor(E, x).ivars[::-1], as_tensor(E, x).body))
        if name == 'reshape': return F(lambda E, x, *s: reshape(E, x, s[0] if len(s) == 1 else s))
        if name == '__class__': return np.ndarray if isinstance(v, STensor) else float
        if name in ('flat',): raise Unsupported(name)
        if name == 'item' and not t.axes: return F(lambda E, x: as_tensor(E, x).body)
        if hasattr(np.ndarray, name): raise Unsupported(f'array.{name}')
        raise Raised(AttributeError(name))
    if isinstance(v, (SStr, str)):
        if name == 'format': return SFun(name, lambda E, fn, args, kwargs, star: str_format(E, v, plain(args), kwargs) if isinstance(v, str) else opaque_str(E, args), (v,))
        if name == 'join': return F(lambda E, s, xs: join(E, s, xs))
        if name == 'startswith':
            if isinstance(v, str): return F(lambda E, s, x: s.startswith(x))
            return F(lambda E, s, x: sstr_startswith(E, s, x))
        if name == 'isidentifier' and isinstance(v, SStr): return F(lambda E, s: E.identifier(s) if hasattr(E, 'identifier') else True)
        if isinstance(v, str): return getattr(v, name)
        raise Unsupported(f'str.{name}')
    if isinstance(v, (SSeq, tuple)):
        if isinstance(v, tuple) and hasattr(v, '_fields'): return getattr(v, name)
        if name == 'index':
            return F(lambda E, s, x: METHODS[('list', 'index')](E, E.new_list(E.as_seq(s).segs), x))
        if name == 'count':
            return F(lambda E, s, x: METHODS[('list', 'count')](E, E.new_list(E.as_seq(s).segs), x))
        if hasattr(tuple, name): raise Unsupported(f'tuple.{name}')
        raise Raised(AttributeError(name))
    raise Unsupported(f'attribute {name} of {v!r}')


def no_order(what): raise Unsupported(f'array order {what}')


def sstr_startswith(E, s, x):
    if isinstance(x, str) and getattr(E, 'prefix_false', None) and x in E.prefix_false: return False
    if isinstance(x, str) and x == '': return True
    if isinstance(x, (str, SStr)): return z3.Function('startswith', z3.IntSort(), z3.IntSort(), z3.BoolSort())(s.t, E.str_lit(x) if isinstance(x, str) else x.t)
    raise Unsupported('startswith on a symbolic string')


def join(E, s, xs):
    seq = E.as_seq(E.iter_value(xs))
    segs = E.norm_segs(seq)
    if all(type(g) is Unit and isinstance(g.v, str) for g in segs): return s.join(g.v for g in segs)
    h = getattr(E, 'join_hook', None)
    if h is not None: return h(E, s, SSeq(segs))
    return opaque_str(E, [])


def call_descriptor(E, d, self, args, kwargs):
    nm = d.__name__
    owner = d.__objclass__
    if owner is object:
        if nm == '__init__': return None
        if nm == '__setattr__':
            E.setf(self, args[0], args[1]); return None
        if nm == '__getattribute__': return E._getattr(self, args[0])
        if nm == '__eq__': return NotImplemented
        if nm == '__str__' or nm == '__repr__': return opaque_str(E, [])
        if nm == '__reduce__' or nm == '__reduce_ex__': raise Unsupported('pickle protocol')
    if owner is property and nm == '__init__' and isinstance(self, H):
        for i, n in enumerate(('fget', 'fset', 'fdel')): E.setf(self, n, kwargs[n] if n in kwargs else args[i] if len(args) > i else None)
        return None
    if isinstance(self, H):
        r = E.rec(self)
        if r.kind in ('dict', 'list', 'set'):
            if nm == '__init__' and owner is dict:
                MODELS_update = METHODS[('dict', 'update')]
                return MODELS_update(E, self, *args, **kwargs)
            if nm == '__setitem__': return E.setitem(self, *args)
            if nm == '__getitem__': return E.getitem(self, *args)
            if nm == '__contains__': return E.contains(self, args[0])
            if nm == '__len__': return length(E, self)
            if (r.kind, nm) in METHODS: return METHODS[(r.kind, nm)](E, self, *args, **kwargs)
    if isinstance(self, H) and E.rec(self).kind == 'obj' and issubclass(E.rec(self).cls, tuple) and '$items' in E.rec(self).f:
        it = E.rec(self).f['$items']
        if nm == '__getitem__': return E.seq_get(it, args[0])
        if nm == '__iter__': return it
        if nm == '__len__': return E.seq_len(it)
    if not engine_any([self] + list(args)): return d(self, *args, **kwargs)
    raise Unsupported(f'{owner.__name__}.{nm}')


def call_handle(E, h, r, args, kwargs, star):
    raise Unsupported(f'call of a {r.kind}')


def nd_inplace(E, op, cur, v):
    r = E.rec(cur)
    t = r.f['$t']
    new = elementwise(E, lambda x, y: arith(E, op, x, y), t, v)
    new = broadcast_to(E, new, shape_of(E, t))
    E.setf(cur, '$t', new)
    return cur


def nd_setitem(E, h, r, k, v):
    t = r.f['$t']
    ks = list(k) if type(k) is tuple else [k]
    ks = [E.force(x) for x in ks]
    if Ellipsis in [x for x in ks if x is Ellipsis]:
        e = [q for q, x in enumerate(ks) if x is Ellipsis][0]
        ks[e:e+1] = [slice(None)] * (len(t.axes) - (len(ks) - 1))
    while len(ks) < len(t.axes): ks.append(slice(None))
    if len(ks) > len(t.axes): Raise(IndexError, 'too many indices')
    conds, left_axes, left_iv = [], [], []
    for x, a, i in zip(ks, t.axes, t.ivars):
        if isinstance(x, slice) and x == slice(None): left_axes.append(a); left_iv.append(i); continue
        if isnum(x) and not isinstance(x, float):
            y = real(x)
            if isinstance(x, int) and x < 0: y = z3.simplify(real(a.n) + x)
            if not E.branch(And(y >= 0, y < real(a.n))): 
                if isinstance(x, int): Raise(IndexError, 'out of bounds')
                raise Unsupported('array store index')
            conds.append(i == y); continue
        raise Unsupported('array store')
    vt = as_tensor(E, v)
    tgt = STensor(left_axes, left_iv, z3.RealVal(0))
    if len(vt.axes) > len(left_axes): Raise(ValueError, 'could not broadcast')
    # value broadcast to the selected block
    maps = []
    off = len(left_axes) - len(vt.axes)
    for q, (b, w) in enumerate(zip(vt.axes, vt.ivars)):
        a, i = left_axes[off + q], left_iv[off + q]
        if a.key is not None or b.key is not None:
            if a.key is None or b.key is None or not E.implied(a.key == b.key): raise Unsupported('array store')
            maps.append((w, i)); continue
        if E.branch(real(b.n) == real(a.n)): maps.append((w, i))
        elif E.branch(real(b.n) == 1): maps.append((w, z3.IntVal(0)))
        else: Raise(ValueError, 'could not broadcast')
    new = subst(vt.body, maps)
    c = And(*conds)
    E.setf(h, '$t', STensor(t.axes, t.ivars, ite(c, new, t.body)))


def new_nd(E, t):
    from .engine import Rec
    return E.alloc(Rec('nd', np.ndarray, {'$t': t}))


# ---------------------------------------------------------------------- sorting
def sort_seq(E, seq, key=None, reverse=False):
    segs = E.norm_segs(seq)
    if len(segs) <= 1 and all(type(s) is Unit for s in segs): return SSeq(segs)
    if all(type(s) is Unit for s in segs) and not engine_any([s.v for s in segs]):
        k = None
        if key is not None: k = lambda x: E.native(E.call(key, [x]))
        return SSeq([Unit(x) for x in sorted([s.v for s in segs], key=k, reverse=reverse)])
    kf = (lambda x: E.call(key, [x])) if key is not None else (lambda x: x)
    if len(segs) == 1 and type(segs[0]) is Comp and not reverse:
        s = segs[0]
        i, j = E.idx(), E.idx()
        rng = lambda q: And(q >= 0, q < real(s.n), subst(s.cond, [(s.var, q)]))
        def frozen(v):
            # what the key list holds, before the speculative state it lives in is dropped
            if isinstance(v, H) and E.rec(v).kind == 'list': v = E.getf(v, '$c')
            if isinstance(v, SSeq): return SSeq([Unit(frozen(u.v)) if type(u) is Unit else u for u in v.segs])
            if isinstance(v, tuple): return tuple(frozen(u) for u in v)
            return v
        try: a, b = (under(E, rng(q), lambda: frozen(E.force(kf(subst(s.body, [(s.var, q)]))))) for q in (i, j))
        except Unsupported: le = None
        else: le = key_le(E, a, b)
        g = False if le is None else Implies(And(i >= 0, i < j, j < real(s.n), subst(s.cond, [(s.var, i)]), subst(s.cond, [(s.var, j)])), le[0])
        if E.implied(g): return seq     # already in order (sorting is stable)
    h = getattr(E, 'sort_hook', None)
    if h is not None:
        r = h(E, SSeq(segs), kf, reverse)
        if r is not None: return r
    if all(type(s) is Unit for s in segs) and len(segs) <= 4:
        # insertion by case split
        out = []
        for s in segs:
            p = len(out)
            while p > 0 and not E.branch(order(E, ast.GtE if reverse else ast.LtE, kf(out[p-1]), kf(s.v))): p -= 1
            out.insert(p, s.v)
        return SSeq([Unit(x) for x in out])
    if len(segs) == 1 and type(segs[0]) is Comp: return permuted(E, segs[0], kf, reverse)
    if len(segs) == 1 and type(segs[0]) is Flat: return permuted_flat(E, segs[0], kf, reverse)
    if not reverse and len(segs) <= 6 and all(type(s) in (Unit, Comp) for s in segs):
        r = sort_blocks(E, segs, kf)
        if r is not None: return r
    raise Unsupported('sort')


def sort_blocks(E, segs, kf):
    """Sorting whole segments against each other, where one belongs before the other entirely (stable)."""
    def el(s):
        if type(s) is Unit: return True, s.v
        i = E.idx('b')
        return And(i >= 0, i < real(s.n), subst(s.cond, [(s.var, i)])), subst(s.body, [(s.var, i)])
    def before(a, b, strict):
        (p, x), (q, y) = el(a), el(b)
        le = key_le(E, kf(x), kf(y))
        if le is None: return False
        return E.implied(Implies(And(p, q), And(le[0], Not(le[1])) if strict else le[0]))
    out = []
    for s in segs:
        at = len(out)
        while at > 0 and not before(out[at - 1], s, False):
            if not before(s, out[at - 1], True): return None
            at -= 1
        out.insert(at, s)
    for i, a in enumerate(out):
        if not all(before(a, b, False) for b in out[i + 1:]): return None       # an empty block in between proves nothing
    res = []
    for s in out:
        if type(s) is Unit: res.append(s)
        else: res += list(sort_seq(E, SSeq([s]), SFun('key', lambda E, f, a, k, st: kf(a[0]))).segs)
    return SSeq(res)


def key_le(E, a, b):
    """(a <= b, a == b) for sort keys, or None."""
    a, b = E.force(a), E.force(b)
    if isinstance(a, H) and isinstance(b, H) and E.rec(a).kind == 'list' == E.rec(b).kind: a, b = E.getf(a, '$c'), E.getf(b, '$c')
    if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
        x, y = E.norm_segs(E.as_seq(a)), E.norm_segs(E.as_seq(b))
        if len(x) != len(y) or any(type(s) is not Unit for s in x + y): return None
        le, eq = True, True
        for p, q in reversed(list(zip([s.v for s in x], [s.v for s in y]))):
            r = key_le(E, p, q)
            if r is None: return None
            le, eq = Or(And(r[0], Not(r[1])), And(r[1], le)), And(r[1], eq)
        return le, eq
    if isbool(a) and isbool(b):
        return Or(Not(a), b), (tobool(a) == tobool(b))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)) or isnum(a) and isnum(b):
        return order(E, ast.LtE, a, b), E.truth(E.eq(a, b))
    return None


def sorted_set(E, segs, key):
    """sorted(...) of a set of objects given by elements that may coincide: every element once, keys not decreasing."""
    segs = E.norm_segs(SSeq(segs))
    kinds = []
    def leaf(g):
        for s in g:
            if type(s) is Flat: leaf(E.norm_segs(s.seq))
            else:
                v = s.v if type(s) is Unit else s.body
                if not isinstance(v, SRef): raise Unsupported('sorting a set whose elements may coincide')
                kinds.append(v.cls)
    leaf(segs)
    cls = next(c for c in kinds[0].__mro__ if all(issubclass(k, c) for k in kinds))
    act = list(E.active)
    nm = f'sorted!{E.newid()}'
    S_ = z3.IntSort()
    f = z3.Function(nm, S_, *[S_] * len(act), Obj)
    n = z3.Function(nm + '_n', *[S_] * len(act), S_)(*act) if act else z3.Int(nm + '_n')
    inv = E.declare_injective(f)
    j, k, o = E.idx('s'), E.idx('s'), z3.Const('$o', Obj)
    at = lambda q: f(q, *act)
    el = lambda x: SRef(x, cls)
    q = inv(o, *act)
    has = lambda x: tobool(E.seq_contains(SSeq(segs), el(x)))
    ax = [z3.ForAll([k] + act, z3.Implies(z3.And(k >= 0, k < n), has(at(k))), patterns=[at(k)]),
          z3.ForAll([o] + act, z3.Implies(has(o), z3.And(q >= 0, q < n, at(q) == o)), patterns=[q])]
    kf = (lambda x: E.call(key, [x])) if key is not None else (lambda x: x)
    le = key_le(E, kf(el(at(j))), kf(el(at(k))))
    if le is None: raise Unsupported('sort')
    ax.append(z3.ForAll([j, k] + act, z3.Implies(z3.And(j >= 0, j < k, k < n), tobool(le[0])), patterns=[z3.MultiPattern(at(j), at(k))]))
    for g in (f, inv): E.ax_by_fn.setdefault(g.name(), []).extend(ax)
    E.assume_fact(n >= 0)
    return SSeq([Comp(n, k, True, el(at(k)))])


def under(E, c, thunk):
    """The value of thunk() where c holds, if it is the same on all paths."""
    save = E.snapshot()
    try:
        if c is not True: E.pc.append(tobool(c))
        ps = E.explore(thunk)
    finally: E.restore(save)
    if len(ps) != 1 or ps[0].kind != 'normal': raise Unsupported('no single value')
    return ps[0].val


def permuted(E, s, kf, reverse):
    """sorted(...) of a sequence of any length: a bijection onto the elements, in which the keys do not decrease."""
    n, cnt = real(s.n), real(E.seq_len(s_seq(s)))
    act = list(E.active)
    # the same keys in the same order are sorted by the same permutation
    w = z3.Int('$key')
    try:
        kv = under(E, And(w >= 0, w < n, subst(s.cond, [(s.var, w)])), lambda: kf(subst(s.body, [(s.var, w)])))
        kt = kv.t if isinstance(kv, SStr) else real(kv) if isnum(kv) else None
    except Unsupported: kv = kt = None
    same_as = None
    if kt is not None:
        if not hasattr(E, 'perm_cache'): E.perm_cache = {}
        c = subst(s.cond, [(s.var, w)])
        c = z3.simplify(tobool(c))
        same_as = (z3.simplify(n).get_id(), c.get_id(), z3.simplify(kt).get_id(), reverse, tuple(a.get_id() for a in act))
        E.keep.extend([z3.simplify(n), c, z3.simplify(kt)] + act)
        if same_as in E.perm_cache:
            pi = E.perm_cache[same_as]
            k = E.idx('s')
            return SSeq([Comp(z3.simplify(cnt), k, True, subst(s.body, [(s.var, pi(k, *act))]))])
    nm = f'perm!{E.newid()}'
    pi = z3.Function(nm, z3.IntSort(), *[z3.IntSort()] * len(act), z3.IntSort())
    if same_as is not None: E.perm_cache[same_as] = pi
    inv = E.declare_injective(pi)
    j, k, m = E.idx('s'), E.idx('s'), E.idx('s')
    at = lambda q: pi(q, *act)
    ok = lambda q: subst(s.cond, [(s.var, q)])
    ax = [z3.ForAll([k] + act, Implies(And(k >= 0, k < cnt), And(at(k) >= 0, at(k) < n, ok(at(k)))), patterns=[at(k)])]
    im = inv(m, *act)
    ax.append(z3.ForAll([m] + act, Implies(And(m >= 0, m < n, ok(m)), And(im >= 0, im < cnt, at(im) == m)), patterns=[im]))
    try:
        x, y = (subst(kv, [(w, at(q))]) if kt is not None else kf(subst(s.body, [(s.var, at(q))])) for q in (j, k))
        le = key_le(E, y, x) if reverse else key_le(E, x, y)
    except Unsupported:
        le = None
    if le is not None:
        # in order, and stable
        st = Implies(tobool(le[1]), at(j) < at(k)) if not reverse else True
        ax.append(z3.ForAll([j, k] + act, Implies(And(j >= 0, j < k, k < cnt), And(tobool(le[0]), st)), patterns=[z3.MultiPattern(at(j), at(k))]))
    for f in (pi, inv): E.ax_by_fn.setdefault(f.name(), []).extend(ax)
    return SSeq([Comp(z3.simplify(cnt), k, True, subst(s.body, [(s.var, at(k))]))])


def s_seq(s): return SSeq([s])


def permuted_flat(E, s, kf, reverse):
    """sorted([x for g in ... for x in ...]): as permuted, the place of an element being a pair of indices."""
    inner = E.norm_segs(s.seq)
    if len(inner) != 1 or type(inner[0]) is not Comp: raise Unsupported('sort')
    t = inner[0]
    act = list(E.active)
    N = real(E.seq_len(s_seq(s)))
    nm = f'perm!{E.newid()}'
    S_ = z3.IntSort()
    go, gi = (z3.Function(nm + x, S_, *[S_] * len(act), S_) for x in ('o', 'i'))
    inv = z3.Function(nm + '_inv', S_, S_, *[S_] * len(act), S_)
    j, k, m, q = (E.idx('s') for _ in range(4))
    ok = lambda o, i: And(o >= 0, o < real(s.n), subst(s.cond, [(s.var, o)]), i >= 0, i < subst(real(t.n), [(s.var, o)]), subst(t.cond, [(s.var, o), (t.var, i)]))
    el = lambda x: subst(t.body, [(s.var, go(x, *act)), (t.var, gi(x, *act))])
    ax = [z3.ForAll([k] + act, Implies(And(k >= 0, k < N), And(ok(go(k, *act), gi(k, *act)), inv(go(k, *act), gi(k, *act), *act) == k)), patterns=[go(k, *act), gi(k, *act)])]
    im = inv(q, m, *act)
    ax.append(z3.ForAll([q, m] + act, Implies(ok(q, m), And(im >= 0, im < N, go(im, *act) == q, gi(im, *act) == m)), patterns=[im]))
    le = None
    try:
        x, y = kf(el(j)), kf(el(k))
        le = key_le(E, y, x) if reverse else key_le(E, x, y)
    except Unsupported: pass
    if le is not None:
        ax.append(z3.ForAll([j, k] + act, Implies(And(j >= 0, j < k, k < N), tobool(le[0])), patterns=[z3.MultiPattern(go(j, *act), go(k, *act)), z3.MultiPattern(gi(j, *act), gi(k, *act))]))
    for f in (go, gi, inv): E.ax_by_fn.setdefault(f.name(), []).extend(ax)
    return SSeq([Comp(z3.simplify(N), k, True, el(k))])


# ---------------------------------------------------------------------- builtins
def length(E, v):
    v = E.force(v)
    if isinstance(v, (SSeq, tuple)) and not hasattr(v, '_fields'): return E.seq_len(E.as_seq(v))
    if isinstance(v, H):
        r = E.rec(v)
        if r.kind == 'list': return E.seq_len(r.f['$c'])
        if r.kind == 'dict': return E.map_len(r.f['$c'])
        if r.kind == 'set':
            segs = E.norm_segs(r.f['$c'])
            if all(type(s) is Unit for s in segs): return len(segs)
            return set_size(E, segs)
        if r.kind == 'nd': return tensor_len(E, r.f['$t'])
        if r.kind == 'obj':
            if issubclass(r.cls, tuple) and '$items' in r.f: return E.seq_len(r.f['$items'])
            m = E.class_attr(r.cls, '__len__')
            if m is not MISSING: return E.call(E.getattr(v, '__len__'), [])
        if r.kind == 'iter': Raise(TypeError, 'no len')
        Raise(TypeError, 'object has no len()')
    if isinstance(v, STensor): return tensor_len(E, v)
    if isinstance(v, SFun) and v.cls == '$view': return E.seq_len(v.data[0])
    if isinstance(v, SFun) and v.cls == '__dict__': return E.map_len(dict_proxy_map(E, v))
    if isinstance(v, SFun) and '__len__' in v.attrs: return E.call(v.attrs['__len__'], [])
    if isnum(v) or v is None: Raise(TypeError, 'no len()')
    if engine_any([v]): raise Unsupported(f'len of {v!r}')
    try: return len(v)
    except TypeError as e:
        from .engine import Raised
        raise Raised(e)


def set_size(E, segs):
    if len(segs) == 1 and type(segs[0]) is Comp:
        s = segs[0]
        if E.solve_key(s.body, s.var, s.body) is not None: return E.count(s.n, s.var, s.cond)
    h = getattr(E, 'set_size_hook', None)
    if h: return h(E, segs)
    raise Unsupported('size of a set')


def tensor_len(E, t):
    if not t.axes: Raise(TypeError, 'len() of unsized object')
    a = t.axes[0]
    if a.key is not None:
        if not E.branch(real(a.rank) >= 1):
            if len(t.axes) > 1: raise Unsupported('len of unknown rank')
            Raise(TypeError, 'len() of unsized object')
        return z3.Function('dim', z3.IntSort(), z3.IntSort(), z3.IntSort())(a.key, z3.IntVal(0))
    n = z3.simplify(real(t.axes[0].n))
    return n.as_long() if z3.is_int_value(n) else n


model(builtins.len)(py(length))
@model(builtins.zip)
@py
def _(E, *its, strict=False): return E.zip_seqs([E.as_seq(E.iter_value(i, consume=True)) for i in its]) if its else ()
@model(builtins.enumerate)
@py
def _(E, it, start=0): return E.enumerate_seq(E.as_seq(E.iter_value(it)), start)
@model(builtins.range)
@py
def _(E, *a):
    a = [E.force(x) for x in a]
    if all(isinstance(x, int) for x in a): return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3: raise Unsupported('range step')
    n = z3.simplify(real(hi) - real(lo))
    v = E.idx('r')
    if not E.implied(n >= 0):
        if not E.branch(n >= 0): return ()
    return SSeq([Comp(n, v, True, z3.simplify(v + real(lo)))])
@model(builtins.list)
@py
def _(E, it=()):
    it = E.force(it)
    if isinstance(it, H) and E.rec(it).kind == 'set' and not distinct_set(E, E.getf(it, '$c').segs):
        return E.alloc(Rec('set', list, {'$c': E.getf(it, '$c')}))     # of unknown length: cannot be gone through
    return E.new_list(E.as_seq(E.iter_value(it)).segs)
@model(builtins.tuple)
@py
def _(E, it=()):
    s = E.as_seq(E.iter_value(it))
    return tuple(x.v for x in s.segs) if all(type(x) is Unit for x in s.segs) else s
@model(builtins.set, builtins.frozenset)
@py
def _(E, it=()): return make_set(E, E.as_seq(E.iter_value(it)))
@model(builtins.iter)
@py
def _(E, it):
    from .engine import Rec
    it = E.force(it)
    if isinstance(it, H) and E.rec(it).kind == 'iter': return it
    if isinstance(it, SRef) and E.hasattr(it, '__iter__'): return E.call(E.getattr(it, '__iter__'), [])
    s = E.iter_value(it)
    return E.alloc(Rec('iter', type(iter([])), {'$c': s, '$pos': 0}))
@model(builtins.next)
@py
def _(E, it, *d):
    it = E.force(it)
    if isinstance(it, SSeq): raise Unsupported('next on a generator value')
    c, p = E.getf(it, '$c'), E.getf(it, '$pos')
    if not isinstance(c, SSeq) or not isnum(p): raise Unsupported(f'iterator state {c!r} {p!r}')
    n = E.seq_len(c)
    if not E.branch(p < n):
        if d: return d[0]
        Raise(StopIteration)
    v = E.seq_get(c, p)
    E.setf(it, '$pos', p + 1)
    return v
@model(builtins.reversed)
@py
def _(E, it): return E.seq_reverse(E.as_seq(E.iter_value(it)))
@model(builtins.sorted)
@py
def _(E, it, key=None, reverse=False):
    if isinstance(it, H) and E.rec(it).kind == 'set' and not reverse and not distinct_set(E, E.getf(it, '$c').segs):
        return E.new_list(sorted_set(E, E.getf(it, '$c').segs, key).segs)
    return E.new_list(sort_seq(E, E.as_seq(E.iter_value(it)), key, reverse).segs)
@model(builtins.isinstance)
@py
def _(E, v, c): return E.isinstance(v, c)
@model(builtins.issubclass)
@py
def _(E, c, k):
    c = E.force(c)
    if isinstance(c, type):
        return issubclass(c, k)
    Raise(TypeError, 'issubclass() arg 1 must be a class')
@model(builtins.hasattr)
@py
def _(E, v, n): return E.hasattr(v, n)
@model(builtins.getattr)
@py
def _(E, v, n, *d): return E.getattr(v, n, *d) if isinstance(n, str) else sym_getattr(E, v, n, *d)
def sym_getattr(E, v, n, *d):
    """The attribute of an object under a name known only symbolically: none of its own attributes, so __getattr__."""
    v = E.force(v)
    if d or not isinstance(n, SStr) or not isinstance(v, H) or E.rec(v).kind != 'obj': raise Unsupported('getattr with a symbolic name')
    r = E.rec(v)
    g = E.class_attr(r.cls, '__getattr__')
    if g is MISSING: raise Unsupported('getattr with a symbolic name')
    for own in sorted(set(dir(r.cls)) | {k for k in r.f if not k.startswith('$')}):
        if not E.implied(Not(E.truth(E.eq(n, own)))): raise Unsupported('getattr with a symbolic name')
    return E.call(g, [v, n])
@model(builtins.setattr)
@py
def _(E, v, n, x):
    if not isinstance(n, str): raise Unsupported('setattr with a symbolic name')
    E.setattr(v, n, x)
@model(builtins.delattr)
@py
def _(E, v, n): E.delattr(v, n)
@model(builtins.callable)
@py
def _(E, v):
    v = E.force(v)
    if isinstance(v, (Closure, Bound)): return True
    if isinstance(v, SFun): return v.call is not None
    if isinstance(v, H): return E.rec(v).kind == 'obj' and E.class_attr(E.rec(v).cls, '__call__') is not MISSING
    if isinstance(v, SRef):
        return E.hasattr(v, '__call__')
    if engine_any([v]): return False
    return callable(v)
@model(builtins.type)
@py
def _(E, v, *a):
    if a: raise Unsupported('type(...)')
    v = E.force(v)
    if isinstance(v, SRef): return E.getattr(v, '__class__')
    return E.cls_of(v)
@model(builtins.str)
@py
def _(E, v=''): return str_of(E, v)
@model(builtins.repr)
@py
def _(E, v): return opaque_str(E, [v]) if engine_any([v]) else repr(v)
@model(builtins.print)
@py
def _(E, *a, **k): return None
@model(builtins.sum)
@py
def _(E, it, start=0):
    from .engine import Rec
    seq = E.as_seq(E.iter_value(it))
    acc = E.alloc(Rec('frame', None, {'acc': start}, tag=None))
    E.loop_over(seq, lambda x: E.setf(acc, 'acc', E.binop(ast.Add, E.getf(acc, 'acc'), x)))
    return E.getf(acc, 'acc')
def quant(E, it, is_any):
    cs = []
    for s in E.norm_segs(E.as_seq(E.iter_value(it))):
        if type(s) is Unit: c = E.truth(s.v)
        elif type(s) in (Comp, Flat):
            j = E.idx()
            pre = And(j >= 0, j < real(s.n), subst(s.cond, [(s.var, j)]))
            if type(s) is Comp: b = E.truth(subst(s.body, [(s.var, j)]))
            else: b = quant(E, subst(s.seq, [(s.var, j)]), is_any)
            c = E.exists(j, And(pre, b)) if is_any else E.forall(j, Implies(pre, b))
        else: raise Unsupported('any/all')
        cs.append(c)
    return (Or if is_any else And)(*cs) if cs else (not is_any)
@model(builtins.any)
@py
def _(E, it): return quant(E, it, True)
@model(builtins.all)
@py
def _(E, it): return quant(E, it, False)
def minmax(E, is_min, a, key=None):
    seq = E.as_seq(E.iter_value(a[0])) if len(a) == 1 else SSeq([Unit(x) for x in a])
    if key is not None: raise Unsupported('min/max key')
    segs = E.norm_segs(seq)
    if not all(type(s) is Unit for s in segs): raise Unsupported('min/max of a symbolic sequence')
    if not segs: Raise(ValueError, 'empty')
    r = segs[0].v
    for s in segs[1:]:
        c = order(E, ast.Lt if is_min else ast.Gt, s.v, r)
        r = ite(c, s.v, r)
    return r
@model(builtins.min)
@py
def _(E, *a, key=None): return minmax(E, True, a, key)
@model(builtins.max)
@py
def _(E, *a, key=None): return minmax(E, False, a, key)
@model(builtins.abs, np.abs, np.absolute)
@py
def _(E, v):
    return elementwise(E, lambda x: abs(x) if not isz(x) else z3.If(x >= 0, x, -x), v)
@model(builtins.map)
@py
def _(E, f, *its):
    seq = E.zip_seqs([E.as_seq(E.iter_value(i)) for i in its])
    acc = E.new_list()
    E.loop_over(seq, lambda x: METHODS[('list', 'append')](E, acc, E.call(f, [E.seq_get(E.as_seq(x), q) for q in range(len(its))])))
    return E.rec(acc).f['$c']
@model(builtins.filter)
@py
def _(E, f, it):
    seq = E.as_seq(E.iter_value(it))
    acc = E.new_list()
    def body(x):
        c = E.truth(E.call(f, [x])) if f is not None else E.truth(x)
        if E.branch(c): METHODS[('list', 'append')](E, acc, x)
    E.loop_over(seq, body)
    return E.rec(acc).f['$c']
@model(builtins.bool)
@py
def _(E, v=False): return E.truth(v)
@model(builtins.float)
@py
def _(E, v=0.0):
    v = E.force(v)
    if isinstance(v, STensor) and not v.axes: v = v.body
    if isz(v): return z3.ToReal(v) if z3.is_arith(v) and v.is_int() else v
    if engine_any([v]): raise Unsupported('float()')
    return float(v)
@model(builtins.int)
@py
def _(E, v=0):
    v = E.force(v)
    if isz(v):
        if z3.is_arith(v) and v.is_int(): return v
        if z3.is_bool(v): return real(v)
        if z3.is_to_real(v): return v.arg(0)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if engine_any([v]): raise Unsupported('int()')
    return int(v)
@model(builtins.vars)
@py
def _(E, v): return E.getattr(v, '__dict__')
@model(warnings.warn)
@py
def _(E, *a, **k): return None


def dict_ctor(cls):
    def h(E, args, kwargs, star=None):
        plain(args)
        d = E.new_dict((), cls)
        METHODS[('dict', 'update')](E, d, *args, _star=star, **kwargs)
        return d
    return h
model(builtins.dict)(dict_ctor(dict))
model(collections.OrderedDict)(dict_ctor(collections.OrderedDict))
@model(collections.Counter)
@py
def _(E, x=()):
    """How often each name occurs in a sequence of names."""
    seq = E.as_seq(E.iter_value(x)) if not isinstance(x, tuple) else SSeq([Unit(v) for v in x])
    segs = E.norm_segs(seq)
    if not segs: return E.new_dict((), collections.Counter)
    for s in segs:
        if type(s) not in (Unit, Comp): raise Unsupported('Counter')
        b = E.force(s.v if type(s) is Unit else s.body)
        if not isinstance(b, (str, SStr)): raise Unsupported('Counter of something else than names')
    return E.new_dict([('base', BaseMap('count', occurrences, data=(SSeq(segs),), domain=SStr))], collections.Counter)

def occurrences(E, key, seq):
    """One counting function for all keys: the key is its parameter."""
    name, tot, has = z3.Int('key!counted'), z3.IntVal(0), False
    key = SStr(E.str_lit(key)) if isinstance(key, str) else E.force(key)
    if not isinstance(key, SStr): return False, z3.IntVal(0)
    for s in seq.segs:
        if type(s) is Unit:
            c = E.truth(E.eq(s.v, key))
            tot, has = tot + z3.If(tobool(c), 1, 0), Or(has, c)
        else:
            q = z3.substitute(real(E.count(s.n, s.var, And(s.cond, E.truth(E.eq(s.body, SStr(name)))))), (name, key.t))
            tot, has = tot + q, Or(has, q > 0)
    return has, tot
@model(collections.defaultdict)
@py
def _(E, factory=None, *a):
    d = E.new_dict((), collections.defaultdict)
    E.setf(d, '$factory', factory)
    if a: METHODS[('dict', 'update')](E, d, *a)
    return d
def abc_view(name, pick):
    def h(E, self):
        seq = E.as_seq(E.iter_value(self))
        if name == 'keys': return view(E, name, seq, self)
        acc = E.new_list()
        E.loop_over(seq, lambda x: METHODS[('list', 'append')](E, acc, pick(E, self, x)))
        return view(E, name, E.rec(acc).f['$c'], self)
    return py(h)
import collections.abc
model(collections.abc.Mapping.keys)(abc_view('keys', None))
model(collections.abc.Mapping.values)(abc_view('values', lambda E, m, x: E.getitem(m, x)))
model(collections.abc.Mapping.items)(abc_view('items', lambda E, m, x: (x, E.getitem(m, x))))
@model(collections.abc.Mapping.__contains__)
@py
def _(E, m, k):
    from .engine import Raised
    try: E.getitem(m, k)
    except Raised as e:
        if E.exc_isinstance(e.val, KeyError): return False
        raise
    return True
@model(collections.abc.Mapping.get)
@py
def _(E, m, k, default=None):
    from .engine import Raised
    try: return E.getitem(m, k)
    except Raised as e:
        if E.exc_isinstance(e.val, KeyError): return default
        raise
@model(tuple.__new__)
@py
def _(E, cls, items=()):
    from .engine import Rec
    if cls is tuple: raise Unsupported('tuple.__new__')
    return E.alloc(Rec('obj', cls, {'$items': E.as_seq(E.iter_value(items))}))
@model(functools.wraps)
@py
def _(E, f, *a, **k): return SFun('wraps', lambda E, fn, args, kwargs, star: args[0])
@model(functools.partial)
def _(E, args, kwargs, star=None):
    from .engine import Star
    if star is not None: raise Unsupported('partial')
    starred = [type(a) is Star for a in args[1:]]
    f, rest = args[0], tuple(a.seq if type(a) is Star else a for a in args[1:])
    names = tuple(kwargs)
    def call(E, fn, a, k, s):
        d = fn.data
        kk = dict(zip(names, d[1 + len(rest):])); kk.update(k)
        return E.call(d[0], [Star(x) if st else x for st, x in zip(starred, d[1:1 + len(rest)])] + list(a), kk, s)
    return SFun('partial', call, (f,) + rest + tuple(kwargs.values()), cls=functools.partial,
                attrs={'func': f, 'args': rest, 'keywords': None})
@model(itertools.chain.from_iterable)
@py
def _(E, it):
    acc = E.new_list()
    E.loop_over(E.as_seq(E.iter_value(it)), lambda x: METHODS[('list', 'extend')](E, acc, x))
    return E.rec(acc).f['$c']
@model(itertools.chain)
@py
def _(E, *its):
    segs = ()
    for i in its: segs = segs + E.as_seq(E.iter_value(i)).segs
    return SSeq(segs)
@model(itertools.product)
@py
def _(E, *its):
    if len(its) != 2: raise Unsupported('itertools.product')
    a, b = (E.norm_segs(E.as_seq(E.iter_value(i))) for i in its)
    if all(type(s) is Unit for s in a + b): return SSeq([Unit((x.v, y.v)) for x in a for y in b])
    if len(a) == len(b) == 1 and all(type(s) is Comp and s.cond is True for s in a + b):
        (x,), (y,) = a, b
        if contains(real(y.n), x.var): raise Unsupported('itertools.product')
        pr, fst, snd, tot = E.pairing()
        q, m = E.idx('q'), real(y.n)
        return SSeq([Comp(tot(real(x.n), m), q, True, (subst(x.body, [(x.var, fst(q, m))]), subst(y.body, [(y.var, snd(q, m))])))])
    raise Unsupported('itertools.product')
@model(itertools.repeat)
@py
def _(E, x, n=None):
    if n is None: raise Unsupported('infinite iterator')
    return SSeq([Comp(n, E.idx('r'), True, x)]) if isz(n) else (x,) * n
for _op, _nm in ((ast.Add, 'add'), (ast.Sub, 'sub'), (ast.Mult, 'mul'), (ast.Div, 'truediv'), (ast.Pow, 'pow')):
    model(getattr(operator, _nm))(py(lambda E, a, b, _op=_op: E.binop(_op, a, b)))
model(operator.neg)(py(lambda E, a: E.neg(E.force(a))))


# ---------------------------------------------------------------------- numpy
@model(np.array, np.asarray, np.asanyarray)
@py
def _(E, v, dtype=None, **k):
    v = E.force(v)
    if v is None: return np.array(None)
    if isinstance(v, SRef): raise Unsupported('object array')
    t = as_tensor(E, v)
    return t if t.axes else STensor([], [], t.body)
@model(np.atleast_1d)
@py
def _(E, v):
    t = as_tensor(E, v)
    if t.axes: return t
    return STensor([Axis(z3.IntVal(1))], [E.idx('a')], t.body)
@model(np.atleast_2d)
@py
def _(E, v):
    t = as_tensor(E, v)
    if any(a.key is not None for a in t.axes): raise Unsupported('atleast_2d of unknown rank')
    axes, iv = list(t.axes), list(t.ivars)
    while len(axes) < 2: axes.insert(0, Axis(z3.IntVal(1))); iv.insert(0, E.idx('a'))
    return STensor(axes, iv, t.body)
model(np.squeeze)(py(squeeze))
@model(np.sum, np.nansum)
@py
def _(E, v, axis=None, keepdims=False, **k):
    nokw(k)
    v = E.force(v)
    if axis is None and isinstance(v, (H, SSeq, tuple)) and not is_array(E, v):
        seq = E.as_seq(E.iter_value(v))
        tot = 0
        for s in E.norm_segs(seq):
            if type(s) is Unit: x = reduce_sum(E, s.v)
            elif type(s) is Comp:
                b = s.body
                b = reduce_sum(E, b) if not isinstance(b, SIte) else b
                x = E.sum_term(s.n, s.var, s.cond, b)
            else: raise Unsupported('sum of a flattened list')
            tot = x if isinstance(tot, int) and tot == 0 else arith(E, ast.Add, tot, x)
        return tot
    return reduce_sum(E, v, axis, keepdims)
@model(np.einsum)
@py
def _(E, spec, *ops, **k): nokw(k); return einsum_outer(E, spec, *ops)
model(np.broadcast_to)(py(broadcast_to))
@model(np.broadcast_arrays)
def _(E, args, kwargs, star=None):
    from .engine import Star
    if star is not None or kwargs: raise Unsupported('broadcast_arrays')
    segs = []
    for x in args: segs += list(x.seq.segs) if type(x) is Star else [Unit(x)]
    segs = E.norm_segs(SSeq(segs))
    if all(type(s) is Unit for s in segs):
        ts = [as_tensor(E, s.v) for s in segs]
        axes, (iv, maps) = broadcast_axes(E, ts)
        return E.new_list([Unit(STensor(axes, iv, subst(t.body, m))) for t, m in zip(ts, maps)])
    if len(segs) == 1 and type(segs[0]) is Comp:
        # arrays of one and the same shape stay as they are
        s = segs[0]
        t = as_tensor_ite(E, s.body, s.var)
        for a in t.axes:
            if any(isz(x) and contains(x, s.var) for x in (a.n, a.key, a.rank)): raise Unsupported('broadcast of a list of arrays')
        return E.new_list([Comp(s.n, s.var, s.cond, t)])
    raise Unsupported('broadcast of a list of arrays')
@model(np.stack)
@py
def _(E, arrays, axis=0):
    if axis != 0: raise Unsupported('stack axis')
    seq = E.as_seq(E.iter_value(E.force(arrays)))
    if not E.branch(real(E.seq_len(seq)) >= 1): Raise(ValueError, 'need at least one array to stack')
    return stack_seq(E, seq)
@model(np.reshape)
@py
def _(E, v, shape, order='C'): return reshape(E, v, shape) if order == 'C' else no_order(order)
@model(np.expand_dims)
@py
def _(E, v, axis):
    t = as_tensor(E, v)
    r = len(t.axes)
    if any(a.key is not None for a in t.axes) and axis not in (0, -1): raise Unsupported('expand_dims')
    p = axis if axis >= 0 else r + 1 + axis
    axes, iv = list(t.axes), list(t.ivars)
    axes.insert(p, Axis(z3.IntVal(1))); iv.insert(p, E.idx('x'))
    return STensor(axes, iv, t.body)
def like(val):
    def h(E, v, **k):
        t = as_tensor(E, v)
        return new_nd(E, STensor(t.axes, t.ivars, val)) if t.axes else STensor([], [], val)
    return py(h)
model(np.zeros_like)(like(0.0)); model(np.ones_like)(like(1.0))
def filled(val):
    def h(E, shape, dtype=None, **k):
        shape = E.force(shape)
        if isnum(shape): shape = (shape,)
        b = broadcast_to(E, val, shape)
        return new_nd(E, b)
    return py(h)
model(np.zeros)(filled(0.0)); model(np.ones)(filled(1.0))
@model(np.empty)
@py
def _(E, shape, dtype=None):
    shape = E.force(shape)
    if isnum(shape): shape = (shape,)
    b = broadcast_to(E, 0.0, shape)
    f = z3.Function(f'uninit!{E.newid()}', *[z3.IntSort() for _ in b.ivars], z3.RealSort())
    return new_nd(E, STensor(b.axes, b.ivars, f(*b.ivars) if b.ivars else E.fresh('uninit', z3.RealSort())))
@model(np.full)
@py
def _(E, shape, val, **k):
    shape = E.force(shape)
    if isnum(shape): shape = (shape,)
    return new_nd(E, broadcast_to(E, val, shape))
@model(np.nan_to_num)
@py
def _(E, v): return as_tensor(E, v) if not isnum(v) else v
for _f, _n in ((np.log, 'log'), (np.exp, 'exp'), (np.sqrt, 'sqrt'), (np.sin, 'sin'), (np.cos, 'cos')):
    def _h(E, v, _n=_n):
        if E.force(v) is None: Raise(TypeError, f'ufunc {_n} of None')
        return elementwise(E, lambda x: ufn(E, _n, x), v)
    model(_f)(py(_h))
@model(np.nextafter)
@py
def _(E, a, b):
    a, b = E.force(a), E.force(b)
    if not isnum(a) or not isnum(b): raise Unsupported('nextafter of arrays')
    f = z3.Function('nextafter', z3.RealSort(), z3.RealSort(), z3.RealSort())
    t = [z3.ToReal(real(x)) if real(x).is_int() else real(x) for x in (a, b)]
    return f(*t)
@model(np.square)
@py
def _(E, v): return elementwise(E, lambda x: arith(E, ast.Mult, x, x), v)
for _f, _o in ((np.add, ast.Add), (np.subtract, ast.Sub), (np.multiply, ast.Mult), (np.divide, ast.Div), (np.true_divide, ast.Div), (np.power, ast.Pow)):
    model(_f)(py(lambda E, a, b, _o=_o: E.binop(_o, a, b)))
@model(np.isscalar)
@py
def _(E, v): return isnum(E.force(v)) or isinstance(v, str)
@model(np.ndim)
@py
def _(E, v): return rank_of(E, as_tensor(E, v).axes)
@model(np.shape)
@py
def _(E, v): return shape_of(E, as_tensor(E, v))
@model(np.size)
@py
def _(E, v): return value_attr(E, as_tensor(E, v), 'size')
@model(np.prod, np.multiply.reduce, *([np.product] if hasattr(np, 'product') else []))
@py
def _(E, v, axis=None, **k):
    if axis is not None: raise Unsupported('prod axis')
    segs = E.norm_segs(E.as_seq(E.iter_value(v)))
    r = 1
    for s in segs:
        if type(s) is Unit: r = arith(E, ast.Mult, r, E.force(s.v))
        elif type(s) is Comp and isz(s.body) and s.body.decl().name() == 'dim': r = arith(E, ast.Mult, r, E.group_size(s.body.arg(0)))
        else: raise Unsupported('prod')
    return r
@model(np.transpose)
@py
def _(E, v):
    t = as_tensor(E, v); return STensor(t.axes[::-1], t.ivars[::-1], t.body)
@model(np.dot, np.matmul)
@py
def _(E, a, b): return matmul(E, a, b)
@model(np.mean, np.average)
@py
def _(E, v, axis=None, keepdims=False): return reduce_mean(E, v, axis, keepdims)
@model(np.diag)
@py
def _(E, v):
    t = as_tensor(E, v)
    if len(t.axes) != 2: raise Unsupported('diag')
    return STensor([t.axes[0]], [t.ivars[0]], subst(t.body, [(t.ivars[1], t.ivars[0])]))
@model(np.isnan, np.isinf)
@py
def _(E, v): return elementwise(E, lambda x: False, v)
model(np.all)(py(lambda E, v, axis=None, keepdims=False: reduce_quant(E, v, False, axis, keepdims)))
model(np.any)(py(lambda E, v, axis=None, keepdims=False: reduce_quant(E, v, True, axis, keepdims)))
def pointwise_pick(is_min):
    return lambda E, a, b: elementwise2(E, lambda x, y: ite(order(E, ast.LtE if is_min else ast.GtE, x, y), x, y), a, b)
model(np.minimum, np.fmin)(py(pointwise_pick(True)))
model(np.maximum, np.fmax)(py(pointwise_pick(False)))
@model(np.clip)
@py
def _(E, v, lo, hi):
    if lo is not None: v = pointwise_pick(False)(E, v, lo)
    if hi is not None: v = pointwise_pick(True)(E, v, hi)
    return v
@model(np.where)
@py
def _(E, c, a, b):
    return elementwise(E, lambda z, x, y: ite(E.truth(z), x, y), c, a, b)
@model(np.full_like)
@py
def _(E, v, val, **k):
    t = as_tensor(E, v)
    if not t.axes: return val
    return new_nd(E, broadcast_to(E, val, shape_of(E, t)))
model(np.negative)(py(lambda E, v: E.neg(E.force(v)) if isnum(E.force(v)) else elementwise(E, lambda x: E.neg(x), v)))
model(np.positive, np.copy, np.ascontiguousarray)(py(lambda E, v: as_tensor(E, v) if not isnum(E.force(v)) else v))
model(np.logical_and)(py(lambda E, a, b: elementwise(E, lambda x, y: And(E.truth(x), E.truth(y)), a, b)))
model(np.logical_or)(py(lambda E, a, b: elementwise(E, lambda x, y: Or(E.truth(x), E.truth(y)), a, b)))
model(np.logical_not)(py(lambda E, a: elementwise(E, lambda x: Not(E.truth(x)), a)))
model(np.count_nonzero)(py(lambda E, a: reduce_sum(E, elementwise(E, lambda x: ite(tobool(E.truth(x)), z3.IntVal(1), z3.IntVal(0)), a))))
model(np.ravel)(py(lambda E, v: flatten(E, v)))
@model(np.sign)
@py
def _(E, v): return elementwise(E, lambda x: ite(order(E, ast.Gt, x, 0), z3.RealVal(1), ite(order(E, ast.Lt, x, 0), z3.RealVal(-1), z3.RealVal(0))), v)
@model(np.outer, np.multiply.outer)
@py
def _(E, a, b):
    a, b = flatten(E, a), flatten(E, b)
    return einsum_outer(E, 'i,j->ij', a, b)
@model(np.array_equal)
@py
def _(E, a, b):
    a, b = as_tensor(E, a), as_tensor(E, b)
    if len(a.axes) != len(b.axes): return False
    if any(x.key is not None or y.key is not None for x, y in zip(a.axes, b.axes)) and not same_axes(E, a.axes, b.axes): raise Unsupported('array_equal')
    for x, y in zip(a.axes, b.axes):
        if x.key is None and not E.branch(real(x.n) == real(y.n)): return False
    return reduce_quant(E, elementwise(E, lambda p, q: E.truth(E.eq(p, q)), a, STensor(a.axes, b.ivars, b.body)), False)
@model(np.swapaxes)
@py
def _(E, v, p, q):
    t = as_tensor(E, v)
    r = len(t.axes)
    if any(a.key is not None for a in t.axes) or not -r <= p < r or not -r <= q < r: raise Unsupported('swapaxes')
    o = list(range(r)); o[p], o[q] = o[q], o[p]
    return STensor([t.axes[i] for i in o], [t.ivars[i] for i in o], t.body)
@model(np.isclose)
@py
def _(E, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    from fractions import Fraction
    ab = lambda x: ite(order(E, ast.Lt, x, 0), -real(x), real(x))
    q = lambda c: z3.RealVal(str(Fraction(c))) if isinstance(c, (int, float)) else real(c)
    r, s = q(rtol), q(atol)
    if isinstance(a, STensor) or isinstance(b, STensor): return elementwise2(E, lambda x, y: ab(real(x) - real(y)) <= s + r * ab(y), a, b)
    return ab(real(a) - real(b)) <= s + r * ab(b)
model(np.isfinite)(py(lambda E, v: elementwise(E, lambda x: True, v)))
@model(np.iscomplexobj, np.iscomplex)
@py
def _(E, v): return False
@model(np.real)
@py
def _(E, v): return v
