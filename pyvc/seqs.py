"""Sequences and mappings of unbounded length."""
from .vals import *
from . import vals
from .engine import Raised, PathDead


def shift(var, c):
    return [(var, z3.simplify(var + c))]


def has_any(v):
    from .loops import has_carried
    return has_carried(v)


class SeqMixin:

    # ------------------------------------------------------------------ sequences
    def seg_len(self, s):
        T = type(s)
        if T is Unit: return 1
        if T is Comp: return self.count(s.n, s.var, s.cond)
        if T is Flat:
            L = self.seq_len(s.seq)
            return self.sum_term(real(s.n), s.var, s.cond, real(L))
        if T is Prev and not s.upd and type(s.init) is SSeq: 
            raise Unsupported('length of a list under construction')
        if T is Prev: return self.seq_len(s.init)
        raise Unsupported('length')

    def seq_len(self, seq):
        c, tot = 0, None
        for s in seq.segs:
            L = self.seg_len(s)
            if isinstance(L, int): c += L
            else: tot = L if tot is None else tot + L
        if tot is None: return c
        r = z3.simplify(tot + c)
        return r.as_long() if z3.is_int_value(r) else r

    def norm_segs(self, seq):
        """Drop empty segments, unroll those of small literal length."""
        out = []
        for s in seq.segs:
            if type(s) is Comp:
                if s.cond is False: continue
                n = z3.simplify(real(s.n))
                if z3.is_int_value(n):
                    k = n.as_long()
                    if k <= 8:
                        ok = True
                        for j in range(k):
                            c = subst(s.cond, [(s.var, z3.IntVal(j))])
                            if c is not True:
                                c = z3.simplify(tobool(c))
                                if z3.is_false(c): continue
                                if not z3.is_true(c):
                                    if self.implied(Not(c)): continue
                                    if not self.implied(c):
                                        out.append(Comp(z3.IntVal(1), self.idx('u'), c, subst(s.body, [(s.var, z3.IntVal(j))])))
                                        continue
                            out.append(Unit(subst(s.body, [(s.var, z3.IntVal(j))])))
                        continue
                if s.cond is not True:
                    c = z3.simplify(tobool(s.cond))
                    if z3.is_true(c): s = Comp(n, s.var, True, s.body)
                    elif z3.is_false(c): continue
            elif type(s) is Flat:
                n = z3.simplify(real(s.n))
                if s.cond is False or (z3.is_int_value(n) and n.as_long() <= 0): continue
                if z3.is_int_value(n) and n.as_long() <= 8 and s.cond is True:
                    for j in range(n.as_long()):
                        out.extend(self.norm_segs(subst(s.seq, [(s.var, z3.IntVal(j))])))
                    continue
                inner = self.norm_segs(s.seq)
                if len(inner) == 1 and type(inner[0]) is Unit:
                    s = Comp(s.n, s.var, s.cond, inner[0].v)
                elif not inner: continue
            out.append(s)
        return out

    def seq_get(self, seq, k):
        """seq[k]; raises IndexError on the paths where k is out of range."""
        from .engine import Raised
        k = z3.simplify(k) if isz(k) else k
        if isz(k) and z3.is_int_value(k): k = k.as_long()
        if isinstance(k, int) and k < 0:
            segs = list(seq.segs)
            if segs and all(type(s) is Unit for s in segs[k:]) and len(segs) >= -k and all(type(s) is Unit for s in segs[len(segs)+k:]):
                return segs[k].v
            L = self.seq_len(seq)
            if isinstance(L, int):
                k = L + k
                if k < 0: raise Raised(IndexError('index out of range'))
            else:
                if not self.branch(L + k >= 0): raise Raised(IndexError('index out of range'))
                k = z3.simplify(L + k)
        off = k
        for s in self.norm_segs(seq):
            if type(s) is Prev:
                return self.prev_get(s, off)
            if type(s) is Unit:
                if isinstance(off, int):
                    if off == 0: return s.v
                    off -= 1
                else:
                    if self.branch(off == 0): return s.v
                    off = z3.simplify(off - 1)
                continue
            L = self.seg_len(s)
            inside = (off < L) if (isz(L) or isz(off)) else off < L
            if isz(off) and not self.implied(off >= 0):
                if not self.branch(off >= 0):
                    # negative symbolic index: counts from the end
                    tot = self.seq_len(seq)
                    if not self.branch(k + tot >= 0): raise Raised(IndexError('index out of range'))
                    return self.seq_get(seq, z3.simplify(k + tot))
            if self.branch(inside):
                if type(s) is Comp:
                    t = z3.IntVal(0) if z3.is_int_value(z3.simplify(real(s.n))) and z3.simplify(real(s.n)).as_long() == 1 else real(off) if s.cond is True else self.sel(s.n, s.var, s.cond, off)
                    return subst(s.body, [(s.var, t)])
                inner = self.seq_len(s.seq)
                if s.cond is True and not (isz(inner) and contains(inner, s.var)):
                    o = real(off)
                    L1 = real(inner)
                    return self.seq_get(subst(s.seq, [(s.var, o / L1)]), o % L1)
                raise Unsupported('index into a flattened sequence')
            off = z3.simplify(real(off) - L) if (isz(L) or isz(off)) else off - L
            if isz(off) and z3.is_int_value(off): off = off.as_long()
        raise Raised(IndexError('index out of range'))

    def prev_get(self, s, k):
        for i, v in reversed(s.upd):
            if self.proves_eq(real(i), real(k)): return v
            if not self.proves_neq(real(i), real(k)): raise Unsupported('read of a list under update')
        self.prev_reads.append((s.cell, real(k)))
        raise_if = s.init
        # only sound when iteration i reads the element it is about to update (checked in solve_updates)
        return self.seq_get(raise_if, k)

    def seq_slice(self, seq, a, b, step=None):
        if step not in (None, 1):
            if step == -1 and a is None and b is None: return self.seq_reverse(seq)
            segs = self.norm_segs(seq)
            if all(type(s) is Unit for s in segs) and all(x is None or isinstance(x, int) for x in (a, b, step)):
                return SSeq(segs[a:b:step])
            if step == -1 and all(x is None or isinstance(x, int) for x in (a, b)):
                if b == -1: return SSeq([])
                hi = None if a is None or a == -1 else a + 1
                return self.seq_reverse(self.seq_slice(SSeq(segs), None if b is None else b + 1, hi))
            raise Unsupported('slice step')
        if a is None: a = 0
        segs = self.norm_segs(seq)
        if all(type(s) is Unit for s in segs) and isinstance(a, int) and (b is None or isinstance(b, int)):
            return SSeq(segs[a:b])
        L = self.seq_len(SSeq(segs))
        if isinstance(a, int) and a < 0:
            a = z3.simplify(real(L) + a)
            if not self.branch(a >= 0): a = 0
        if b is not None:
            if isinstance(b, int) and b < 0:
                # drop trailing units where possible
                k = b
                while k < 0 and segs and type(segs[-1]) is Unit:
                    segs = segs[:-1]; k += 1
                if k < 0:
                    bb = z3.simplify(real(self.seq_len(SSeq(segs))) + k)
                    if not self.branch(bb >= 0): return SSeq([])
                    segs = self.take(segs, bb)
            else:
                segs = self.take(segs, b)
        return SSeq(self.drop(segs, a))

    def drop(self, segs, k):
        segs = list(segs)
        k = z3.simplify(k) if isz(k) else k
        if isz(k) and z3.is_int_value(k): k = k.as_long()
        while segs:
            if isinstance(k, int) and k <= 0: return segs
            s = segs[0]
            L = self.seg_len(s)
            if isinstance(k, int) and isinstance(L, int):
                if L <= k: segs.pop(0); k -= L; continue
            elif self.branch(real(L) <= real(k)):
                segs.pop(0)
                k = z3.simplify(real(k) - L)
                if z3.is_int_value(k): k = k.as_long()
                continue
            if type(s) is Comp and s.cond is True:
                segs[0] = Comp(z3.simplify(real(s.n) - real(k)), s.var, True, subst(s.body, [(s.var, z3.simplify(s.var + real(k)))]))
                return segs
            if type(s) is Comp:
                t = self.sel(s.n, s.var, s.cond, k)
                segs[0] = Comp(s.n, s.var, And(s.cond, s.var >= t), s.body)
                return segs
            raise Unsupported('slice')
        return segs

    def take(self, segs, k):
        out = []
        k = z3.simplify(k) if isz(k) else k
        if isz(k) and z3.is_int_value(k): k = k.as_long()
        for s in segs:
            if isinstance(k, int) and k <= 0: return out
            if isz(k) and type(s) is not Unit and not self.implied(k >= 0):
                if not self.branch(k >= 0): raise Unsupported('negative symbolic slice bound')
            L = self.seg_len(s)
            if self.branch(real(L) <= real(k)):
                out.append(s)
                k = z3.simplify(real(k) - L)
                if z3.is_int_value(k): k = k.as_long()
                continue
            if type(s) is Unit: return out
            if type(s) is Comp and s.cond is True:
                out.append(Comp(real(k), s.var, True, s.body)); return out
            if type(s) is Comp:
                if not self.branch(real(k) > 0): return out
                t = self.sel(s.n, s.var, s.cond, k)
                out.append(Comp(s.n, s.var, And(s.cond, s.var < t), s.body)); return out
            raise Unsupported('slice')
        return out

    def seq_reverse(self, seq):
        out = []
        for s in reversed(seq.segs):
            if type(s) is Unit: out.append(s)
            elif type(s) is Comp:
                m = [(s.var, z3.simplify(real(s.n) - 1 - s.var))]
                out.append(Comp(s.n, s.var, subst(s.cond, m), subst(s.body, m)))
            else: raise Unsupported('reversed')
        return SSeq(out)

    def zip_seqs(self, seqs):
        work = [self.norm_segs(s) for s in seqs]
        out = []
        while True:
            for w in work:
                while w and type(w[0]) is Flat: raise Unsupported('zip of a flattened sequence')
            if any(not w for w in work): return SSeq(out)
            heads = [w[0] for w in work]
            if all(type(h) is Unit for h in heads):
                out.append(Unit(tuple(h.v for h in heads)))
                for w in work: w.pop(0)
                continue
            if any(type(h) is Unit for h in heads):
                for w in work:
                    h = w[0]
                    if type(h) is Unit: continue
                    L = self.seg_len(h)
                    if not self.branch(real(L) > 0):
                        w.pop(0); break
                    if h.cond is True:
                        w[0:1] = [Unit(subst(h.body, [(h.var, z3.IntVal(0))])),
                                  Comp(z3.simplify(real(h.n) - 1), h.var, True, subst(h.body, shift(h.var, 1)))]
                    else:
                        t = self.sel(h.n, h.var, h.cond, z3.IntVal(0))
                        w[0:1] = [Unit(subst(h.body, [(h.var, t)])), Comp(h.n, h.var, And(h.cond, h.var > t), h.body)]
                continue
            # all are Comps
            h0 = heads[0]
            if all(self.same_domain(h0, h) for h in heads[1:]):
                out.append(Comp(h0.n, h0.var, h0.cond, tuple(subst(h.body, [(h.var, h0.var)]) for h in heads)))
                for w in work: w.pop(0)
                continue
            filt = [h for h in heads if h.cond is not True]
            base = filt[0] if filt else h0
            if any(not self.same_domain(base, h) for h in filt): 
                raise Unsupported('zip of differently filtered sequences')
            cnts = [real(self.seg_len(h)) for h in heads]
            bl = real(self.seg_len(base))
            eqs = [self.proves_eq(c, bl) for c in cnts]
            if not all(eqs) and any(len(w) > 1 for w in work):
                empty = [w for w, c in zip(work, cnts) if self.implied(c <= 0)]
                if empty:
                    for w in empty: w.pop(0)
                    continue
                # a split is needed
                raise Unsupported('zip of misaligned sequences')
            var = base.var
            rank = var if base.cond is True else self.count(var, var, base.cond)
            if base.cond is not True:
                j = self.idx()
                rank = subst(self.count(j, base.var, base.cond), [])
                rank = subst(rank, [(j, var)])
            cond, n = base.cond, base.n
            bodies = []
            for h, c, e in zip(heads, cnts, eqs):
                if h.cond is True and base.cond is not True:
                    bodies.append(subst(h.body, [(h.var, rank)]))
                else:
                    bodies.append(subst(h.body, [(h.var, var)]))
                if not e:
                    if self.implied(c >= bl): continue
                    if base.cond is True:
                        if self.implied(c <= n): n = c
                        else: n = z3.If(n <= c, n, c)
                    else: cond = And(cond, rank < c)
            out.append(Comp(n, var, cond, tuple(bodies)))
            for w in work: w.pop(0)
            if not all(eqs): return SSeq(out)

    def same_domain(self, a, b):
        if a is b: return True
        if not self.proves_eq(real(a.n), real(b.n)): return False
        cb = subst(b.cond, [(b.var, a.var)])
        if same(a.cond, cb): return True
        if a.cond is True or cb is True:
            c = cb if a.cond is True else a.cond
            return self.implied_at(a, c)
        return self.implied_at(a, tobool(a.cond) == tobool(cb))

    def implied_at(self, a, c):
        """c holds for every index 0 <= a.var < a.n."""
        i = self.idx()
        c = subst(tobool(c), [(a.var, i)])
        return self.implied(z3.Implies(z3.And(i >= 0, i < real(a.n)), c))

    def enumerate_seq(self, seq, start=0):
        out, off = [], start
        for s in seq.segs:
            if type(s) is Unit:
                out.append(Unit((off, s.v))); off = off + 1
            elif type(s) is Comp:
                if s.cond is True: r = s.var
                else:
                    j = self.idx(); r = subst(self.count(j, s.var, s.cond), [(j, s.var)])
                out.append(Comp(s.n, s.var, s.cond, (z3.simplify(real(off) + r) if not (isinstance(off, int) and off == 0) else r, s.body)))
                off = off + self.seg_len(s)
            else: raise Unsupported('enumerate of a flattened sequence')
            if isz(off): off = z3.simplify(off)
        return SSeq(out)

    def map_seq(self, seq, f):
        """Apply a pure host function to every element."""
        out = []
        for s in seq.segs:
            if type(s) is Unit: out.append(Unit(f(s.v)))
            elif type(s) is Comp: out.append(Comp(s.n, s.var, s.cond, f(s.body)))
            elif type(s) is Flat: out.append(Flat(s.n, s.var, s.cond, self.map_seq(s.seq, f)))
            else: raise Unsupported('map over a list under construction')
        return SSeq(out)

    def seq_eq(self, a, b):
        if same(a, b): return True
        sa, sb = self.norm_segs(a), self.norm_segs(b)
        if all(type(s) is Unit for s in sa + sb):
            if len(sa) != len(sb): return False
            return And(*[self.truth(self.eq(x.v, y.v)) for x, y in zip(sa, sb)])
        La, Lb = self.seq_len(SSeq(sa)), self.seq_len(SSeq(sb))
        if len(sa) == len(sb) == 1 and type(sa[0]) is Comp and type(sb[0]) is Comp:
            x, y = sa[0], sb[0]
            if self.same_domain(x, y) or (x.cond is True and y.cond is True):
                i = self.idx()
                e = self.truth(self.eq(subst(x.body, [(x.var, i)]), subst(y.body, [(y.var, i)])))
                ne = real(x.n) == real(y.n)
                return And(ne, self.forall(i, Implies(And(i >= 0, i < real(x.n), subst(x.cond, [(x.var, i)])), e)))
        if not sa or not sb:
            return real(La) == real(Lb)
        d = z3.simplify(real(La) == real(Lb))
        if z3.is_false(d) or self.implied(Not(d)): return False
        # elements by position: [units..., one unconditional comprehension, units...]
        def parts(ss):
            k = [q for q, x in enumerate(ss) if type(x) is not Unit]
            if not k: return ss, None, []
            if len(k) > 1 or type(ss[k[0]]) is not Comp or ss[k[0]].cond is not True: raise Unsupported('equality of irregular sequences')
            return ss[:k[0]], ss[k[0]], ss[k[0] + 1:]
        pa, ca, ea = parts(sa); pb, cb, eb = parts(sb)
        eqv = lambda x, y: self.truth(self.eq(x, y))
        if ca is None:
            pa, ca, ea, pb, cb, eb = pb, cb, eb, pa, ca, ea
        if cb is None:
            m, lo, hi = len(pb), len(pa), len(ea)
            if m < lo + hi: return False
            cs = [real(ca.n) == m - lo - hi]
            for j in range(m):
                x = pa[j].v if j < lo else ea[j - m + hi].v if j >= m - hi else subst(ca.body, [(ca.var, z3.IntVal(j - lo))])
                cs.append(eqv(x, pb[j].v))
            return And(*cs)
        if ea or eb: raise Unsupported('equality of irregular sequences')
        if len(pa) > len(pb): pa, ca, pb, cb = pb, cb, pa, ca
        d = len(pb) - len(pa)
        cs = [real(La) == real(Lb)] + [eqv(x.v, y.v) for x, y in zip(pa, pb)]
        for j in range(d): cs.append(eqv(subst(ca.body, [(ca.var, z3.IntVal(j))]), pb[len(pa) + j].v))
        i = self.idx()
        e = eqv(subst(ca.body, [(ca.var, z3.simplify(i + d))]), subst(cb.body, [(cb.var, i)]))
        cs.append(self.forall(i, Implies(And(i >= 0, i < real(cb.n)), e)))
        return And(*cs)

    # ------------------------------------------------------------------ conversions
    def as_seq(self, v):
        if isinstance(v, SSeq): return v
        if isinstance(v, (tuple, list)): return SSeq([Unit(x) for x in v])
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind in ('list', 'set'): return r.f['$c']
            if r.kind == 'iter': return self.iter_rest(r)
            if r.kind == 'dict': return self.map_seq(self.items(r.f['$c']), lambda kv: kv[0])
        raise Unsupported(f'not a sequence: {v!r}')

    def iter_rest(self, r):
        p = r.f['$pos']
        return r.f['$c'] if isinstance(p, int) and p == 0 else self.seq_slice(r.f['$c'], p, None)

    def as_map(self, v):
        if isinstance(v, SMap): return v
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind == 'dict': return r.f['$c']
            if r.kind == 'obj' and self.class_attr(r.cls, 'keys') is not MISSING:
                ks = self.as_seq(self.iter_value(self.call(self.getattr(v, 'keys'), [])))
                m = self.new_dict()
                self.loop_over(ks, lambda k: self.setitem(m, k, self.getitem(v, k)))
                return self.rec(m).f['$c']
        if isinstance(v, dict):
            return SMap([('set', k, x) for k, x in v.items()])
        import types
        if isinstance(v, types.MappingProxyType):
            return SMap([('set', k, x) for k, x in v.items()])
        raise Unsupported(f'not a mapping: {v!r}')

    def iter_value(self, v, consume=False):
        from . import ext
        from .engine import Raised, is_engine
        v = self.force(v)
        if isinstance(v, (SSeq, tuple)) and not (isinstance(v, tuple) and hasattr(v, '_fields')): return self.as_seq(v)
        if isinstance(v, H):
            r = self.rec(v)
            if r.kind == 'iter':
                s = self.iter_rest(r)
                self.setf(v, '$pos', self.seq_len(r.f['$c']))
                return s
            if r.kind == 'set' and not ext.distinct_set(self, r.f['$c'].segs): raise Unsupported(f'iteration over a set whose elements may coincide {r.f[chr(36)+chr(99)]}')
            if r.kind in ('list', 'dict', 'set'): return self.as_seq(v)
            if r.kind == 'nd': return ext.iter_tensor(self, ext.as_tensor(self, v))
            if r.kind == 'obj':
                if issubclass(r.cls, tuple) and '$items' in r.f: return r.f['$items']
                m = self.class_attr(r.cls, '__iter__')
                if m is not MISSING: return self.iter_value(self.call(self.getattr(v, '__iter__'), []))
                raise Raised(TypeError('not iterable'))
        if isinstance(v, STensor): return ext.iter_tensor(self, v)
        if isinstance(v, SFun) and v.cls == '$view': return v.data[0]
        if isinstance(v, SFun) and v.cls == '__dict__': return self.map_seq(self.items(ext.dict_proxy_map(self, v)), lambda kv: kv[0])
        if isinstance(v, SFun) and '__iter__' in v.attrs:
            return self.iter_value(self.call(v.attrs['__iter__'], []))
        if isinstance(v, z3.ExprRef) or v is None or isinstance(v, (int, float)):
            raise Raised(TypeError('object is not iterable'))
        if is_engine(v): raise Unsupported(f'iteration over {v!r}')
        try:
            return SSeq([Unit(x) for x in v])
        except TypeError as e:
            raise Raised(e)

    # ------------------------------------------------------------------ inversion of injective terms
    def declare_injective(self, f, name=None):
        """Register the one-argument-injective function f with an inverse (on its first argument)."""
        inv = z3.Function((name or f.name()) + '_inv', f.range(), *[f.domain(k) for k in range(1, f.arity())], f.domain(0))
        if not hasattr(self, 'inverse'): self.inverse = {}
        self.inverse[f.name()] = inv
        xs = [z3.Const(f'$x{k}', f.domain(k)) for k in range(f.arity())]
        ax = z3.ForAll(xs, inv(f(*xs), *xs[1:]) == xs[0], patterns=[f(*xs)])
        self.ax_by_fn.setdefault(f.name(), []).append(ax)
        self.ax_by_fn.setdefault(inv.name(), []).append(ax)
        return inv

    def declare_joint(self, f):
        """Register f as injective in all its arguments together."""
        xs = [z3.Const(f'$x{k}', f.domain(k)) for k in range(f.arity())]
        invs = [z3.Function(f'{f.name()}_arg{k}', f.range(), f.domain(k)) for k in range(f.arity())]
        if not hasattr(self, 'joint'): self.joint = {}
        self.joint[f.name()] = invs
        ax = z3.ForAll(xs, z3.And(*[g(f(*xs)) == x for g, x in zip(invs, xs)]), patterns=[f(*xs)])
        for g in [f] + invs: self.ax_by_fn.setdefault(g.name(), []).append(ax)

    def pairing(self):
        """Pairs of indices (i, j), j < m, counted off row by row: pr, its two projections, and the number with i < t."""
        S = z3.IntSort()
        pr, fst, snd, tot = z3.Function('pair', S, S, S, S), z3.Function('row', S, S, S), z3.Function('place', S, S, S), z3.Function('pairs', S, S, S)
        if 'pair' not in self.ax_by_fn:
            i, j, k, m, t = z3.Ints('$i $j $k $m $t')
            ax = [z3.ForAll([i, j, m], z3.Implies(z3.And(i >= 0, j >= 0, j < m), z3.And(pr(i, j, m) >= 0, fst(pr(i, j, m), m) == i, snd(pr(i, j, m), m) == j)), patterns=[pr(i, j, m)])]
            for g in (fst, snd):
                ax.append(z3.ForAll([k, m], z3.Implies(z3.And(k >= 0, m >= 1), z3.And(fst(k, m) >= 0, snd(k, m) >= 0, snd(k, m) < m, pr(fst(k, m), snd(k, m), m) == k)), patterns=[g(k, m)]))
            ax.append(z3.ForAll([t, m], tot(t, m) >= 0, patterns=[tot(t, m)]))
            ax.append(z3.ForAll([t, m], z3.Implies(z3.Or(t <= 0, m <= 0), tot(t, m) == 0), patterns=[tot(t, m)]))
            ax.append(z3.ForAll([t, m, k], z3.Implies(z3.And(k >= 0, t >= 0, m >= 1), (k < tot(t, m)) == (fst(k, m) < t)), patterns=[z3.MultiPattern(tot(t, m), fst(k, m))]))
            for g in (pr, fst, snd, tot): self.ax_by_fn.setdefault(g.name(), []).extend(ax)
        return pr, fst, snd, tot

    def pair_loop(self, n, i, cond, op):
        """The entries of a mapping loop run for every i < n, as one loop over pairs of indices."""
        m, j, c, k, v = real(op[1]), op[2], op[3], op[4], op[5]
        if contains(m, i): raise Unsupported('nested mapping updates')
        pr, fst, snd, tot = self.pairing()
        q = self.idx('q')
        sub = lambda x: subst(subst(x, [(j, snd(q, m))]), [(i, fst(q, m))])
        return ('loop', tot(real(n), m), q, And(sub(cond), sub(c)), sub(k), sub(v))

    def unpair(self, a, var):
        """a with the projections of the pair index var replaced by fresh indices, or None."""
        fs, st, seen = {}, [a], set()
        m = None
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in ('row', 'place') and x.num_args() == 2 and x.arg(0).eq(var):
                if m is None: m = x.arg(1)
                elif not m.eq(x.arg(1)): return None
                fs[x.decl().name()] = x
                continue
            if x.eq(var): return None
            st.extend(x.children())
        if set(fs) != {'row', 'place'} or contains(m, var): return None
        u, w = self.idx('u'), self.idx('w')
        return z3.substitute(a, (fs['row'], u), (fs['place'], w)), u, w, m

    def invert(self, term, var, target):
        """The only index j with term[var:=j] == target, if term is injective in var; else None."""
        r = self.unpair(term, var) if contains(term, var) else None
        if r is not None:
            t2, u, w, m = r
            x, y = self.invert(t2, u, target), self.invert(t2, w, target)
            return self.repair(x, y, m) if x is not None and y is not None else None
        if term.eq(var): return target
        if not contains(term, var): return None
        if z3.is_app(term):
            k = term.decl().kind()
            ch = term.children()
            if k == z3.Z3_OP_UNINTERPRETED:
                jt = getattr(self, 'joint', {}).get(term.decl().name())
                if jt is not None:
                    for q, c in enumerate(ch):
                        if contains(c, var):
                            r = self.invert(c, var, target.arg(q) if z3.is_app(target) and target.decl().eq(term.decl()) else jt[q](target))
                            if r is not None: return r
                    return None
                inv = getattr(self, 'inverse', {}).get(term.decl().name())
                if inv is not None and not any(contains(c, var) for c in ch[1:]):
                    if z3.is_app(target) and target.decl().eq(term.decl()) and all(a.eq(b) for a, b in zip(target.children()[1:], ch[1:])):
                        return self.invert(ch[0], var, target.arg(0))
                    return self.invert(ch[0], var, inv(target, *ch[1:]))
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and term.is_int():
                d = z3.simplify(term - var)
                if not contains(d, var): return z3.simplify(target - d)
                d = z3.simplify(term + var)
                if not contains(d, var): return z3.simplify(d - target)
        return None

    def key_term(self, v):
        if isinstance(v, (SStr, SRef)): return v.t
        if isinstance(v, str): return self.str_lit(v)
        if isinstance(v, z3.ArithRef): return v
        if isinstance(v, int) and not isinstance(v, bool): return z3.IntVal(v)
        return None

    def solve_key(self, k, var, key):
        """(index, exact): the only index where k(var) can equal key."""
        if isinstance(k, tuple) and isinstance(key, tuple) and len(k) == len(key):
            for a, b in zip(k, key):
                r = self.solve_key(a, var, b)
                if r is not None: return r
            return self.solve_pair(k, var, key)
        if isinstance(k, SIte):
            return None
        a, b = self.key_term(k), self.key_term(key)
        if a is None or b is None or a.sort() != b.sort(): return None
        return self.invert(a, var, b)

    def solve_pair(self, k, var, key):
        """A tuple of which one entry determines the row and another the place of the pair index var."""
        found, m = {}, None
        for a, b in zip(k, key):
            a, b = self.key_term(a), self.key_term(b)
            if a is None or b is None or a.sort() != b.sort(): continue
            st, fs = [a], {}
            while st:
                x = st.pop()
                if z3.is_app(x) and x.decl().name() in ('row', 'place') and x.num_args() == 2 and x.arg(0).eq(var): fs[x.decl().name()] = x
                else: st.extend(x.children())
            if len(fs) != 1: continue
            (nm, x), = fs.items()
            if m is not None and not m.eq(x.arg(1)): return None
            m = x.arg(1)
            u = self.idx('u')
            r = self.invert(z3.substitute(a, (x, u)), u, b)
            if r is not None: found[nm] = r
        if len(found) < 2 or contains(m, var): return None
        return self.repair(found['row'], found['place'], m)

    def repair(self, x, y, m):
        """The pair index with row x and place y."""
        if all(z3.is_app(a) and a.decl().name() == nm and a.num_args() == 2 and a.arg(1).eq(m) for a, nm in ((x, 'row'), (y, 'place'))) and x.arg(0).eq(y.arg(0)) and self.implied(And(x.arg(0) >= 0, m >= 1)): return x.arg(0)
        return self.pairing()[0](x, y, m)

    def distinct_kinds(self, k, key):
        a, b = self.kind_of(k), self.kind_of(key)
        return a != b

    # ------------------------------------------------------------------ maps
    def map_lookup(self, m, key):
        """(present, value)"""
        ops = m.ops
        if isinstance(key, (SIte, Last)): key = self.force(key)
        def go(j):
            if j < 0: return False, MISSING
            op = ops[j]
            T = op[0]
            if T in ('set', 'del'):
                e = self.truth(self.eq(op[1], key))
                if isz(e):
                    e = z3.simplify(e)
                    if z3.is_true(e) or (not z3.is_false(e) and self.implied(e)): e = True
                    elif z3.is_false(e) or self.implied(Not(e)): e = False
                if e is True: return (True, op[2]) if T == 'set' else (False, MISSING)
                p, v = go(j - 1)
                if e is False: return p, v
                if T == 'del': return And(Not(e), p), v
                return Or(e, p), (ite(e, op[2], v) if v is not MISSING else op[2])
            if T in ('loop', 'ldel'):
                n, var, cond, k = op[1], op[2], op[3], op[4]
                hit, t = self.loop_hit(n, var, cond, k, key)
                if hit is False: return go(j - 1)
                if T == 'ldel':
                    if hit is True: return False, MISSING
                    p, v = go(j - 1)
                    return And(Not(hit), p), v
                v1 = subst(op[5], [(var, t)])
                if hit is True: return True, v1
                p, v = go(j - 1)
                return Or(hit, p), (ite(hit, v1, v) if v is not MISSING else v1)
            if T == 'base':
                return op[1].lookup(self, key, *op[1].data)
            if T == 'prev':
                # no earlier iteration writes this key: verified once the entries are known (solve_map)
                if isinstance(key, (SIte, H)) or has_any(key): raise Unsupported('lookup in a mapping under construction')
                self.prev_reads.append((('map', op[1]), key, len(ops), list(self.pc)))
                return self.map_lookup(op[2], key)
            raise Unsupported('map op')
        return go(len(ops) - 1)

    def loop_hit(self, n, var, cond, k, key):
        if isinstance(k, SIte) :
            raise Unsupported('conditional key')
        if self.distinct_kinds(k, key): return False, None
        if not self.mentions(k, var):
            e = self.truth(self.eq(k, key))
            if e is False: return False, None
            if cond is True:
                h = And(real(n) > 0, e)
                return self.decide(h), z3.simplify(real(n) - 1)
            if z3.is_int_value(z3.simplify(real(n))) and z3.simplify(real(n)).as_long() == 1:
                z = z3.IntVal(0)
                return self.decide(And(subst(cond, [(var, z)]), e)), z
            raise Unsupported('repeated key')
        t = self.solve_key(k, var, key)
        if t is None: raise Unsupported(f'cannot locate {key!r} among keys {k!r}')
        e = self.truth(self.eq(subst(k, [(var, t)]), key))
        h = And(t >= 0, t < real(n), subst(cond, [(var, t)]), e)
        return self.decide(h), t

    def decide(self, h):
        if isinstance(h, bool): return h
        h = z3.simplify(h)
        if z3.is_and(h):
            keep = [c for c in h.children() if not self.implied(c)]
            if not keep: return True
            h = z3.simplify(And(*keep))
        if z3.is_true(h) or self.implied(h): return True
        if z3.is_false(h) or self.implied(Not(h)): return False
        return h

    def mentions(self, v, var): return contains(v, var)

    def items(self, m):
        """Key/value pairs in insertion order, as a sequence (each key once)."""
        ents = []      # ('set',k,v) | ('loop',n,var,cond,k,v)
        for op in m.ops:
            T = op[0]
            if T == 'set':
                self.ent_set(ents, op[1], op[2])
            elif T == 'del':
                self.ent_del(ents, op[1])
            elif T == 'loop':
                self.ent_loop(ents, op)
            elif T == 'ldel':
                n, var, cond, k = op[1:5]
                done = False
                for q, e in enumerate(ents):
                    if e[0] == 'loop' and self.proves_eq(real(e[1]), real(n)) and same(subst(e[4], [(e[2], var)]), k):
                        ents[q] = ('loop', e[1], var, And(subst(e[3], [(e[2], var)]), Not(cond)), k, subst(e[5], [(e[2], var)]))
                        done = True
                    else: self.need_disjoint(e, op)
            elif T == 'base':
                if op[1].items is None: raise Unsupported('iteration over an open mapping')
                ents.extend(op[1].items(self))
            else: raise Unsupported('iteration over a mapping under construction')
        return SSeq([Unit((e[1], e[2])) if e[0] == 'set' else Comp(e[1], e[2], e[3], (e[4], e[5])) for e in ents])

    def ent_set(self, ents, k, v):
        for q, e in enumerate(ents):
            if e[0] == 'set':
                c = self.decide(self.truth(self.eq(e[1], k)))
                if c is True: ents[q] = ('set', e[1], v); return
                if c is False: continue
                if self.branch(c): ents[q] = ('set', e[1], v); return
            else:
                hit, t = self.loop_hit(e[1], e[2], e[3], e[4], k)
                if hit is False: continue
                if hit is not True and not self.branch(hit): continue
                ents[q] = ('loop', e[1], e[2], e[3], e[4], ite(e[2] == t, v, e[5]))
                return
        ents.append(('set', k, v))

    def ent_del(self, ents, k):
        for q, e in enumerate(ents):
            if e[0] == 'set':
                c = self.decide(self.truth(self.eq(e[1], k)))
                if c is True or (c is not False and self.branch(c)): del ents[q]; return
            else:
                hit, t = self.loop_hit(e[1], e[2], e[3], e[4], k)
                if hit is False or (hit is not True and not self.branch(hit)): continue
                ents[q] = ('loop', e[1], e[2], And(e[3], e[2] != t), e[4], e[5])
                return

    def ent_loop(self, ents, op):
        _, n, var, cond, k, v = op
        n = z3.simplify(real(n))
        if z3.is_int_value(n) and n.as_long() <= 1:
            if n.as_long() <= 0: return
            z = [(var, z3.IntVal(0))]
            if self.branch(subst(cond, z)): self.ent_set(ents, subst(k, z), subst(v, z))
            return
        if not self.mentions(k, var):
            if cond is not True: raise Unsupported('repeated key')
            if self.branch(n > 0): self.ent_set(ents, k, subst(v, [(var, z3.simplify(n - 1))]))
            return
        if self.solve_key(k, var, k) is None: raise Unsupported('keys of a loop may repeat')
        for q, e in enumerate(ents):
            if e[0] == 'loop':
                t = self.solve_key(e[4], e[2], k)     # index in e of the key written at var
                if t is not None:
                    i = self.idx()
                    prs = [(var, i)]
                    pre = And(i >= 0, i < n, subst(cond, prs))
                    hit = And(t >= 0, t < real(e[1]), subst(e[3], [(e[2], t)]), self.truth(self.eq(subst(e[4], [(e[2], t)]), k)))
                    h = subst(tobool(hit), prs)
                    if self.implied(Implies(pre, Not(h))): continue
                    # values of keys already present are overwritten in place, the other keys follow at the end
                    s = self.solve_key(k, var, e[4])
                    w = And(s >= 0, s < n, subst(cond, [(var, s)]), self.truth(self.eq(subst(k, [(var, s)]), e[4])))
                    ents[q] = ('loop', e[1], e[2], e[3], e[4], ite(self.decide_at(e, w), subst(v, [(var, s)]), e[5]))
                    if self.implied(Implies(pre, h)): return
                    cond = And(cond, Not(tobool(hit)))
                    op = (op[0], n, var, cond, k, v)
                    continue
            self.need_disjoint(e, op)
        ents.append(('loop', n, var, cond, k, v))

    def decide_at(self, e, w):
        if isinstance(w, bool): return w
        w = z3.simplify(w)
        if self.implied_at(Comp(e[1], e[2], True, None), Implies(e[3], w)): return True
        return w

    def need_disjoint(self, e, op):
        _, n, var, cond, k = op[:5]
        if self.distinct_kinds(e[4] if e[0] == 'loop' else e[1], k): return
        i = self.idx()
        pre = And(i >= 0, i < real(n), subst(cond, [(var, i)]))
        k = subst(k, [(var, i)])
        if e[0] == 'set':
            c = self.truth(self.eq(e[1], k))
        else:
            j = self.idx()
            pre = And(pre, j >= 0, j < real(e[1]), subst(e[3], [(e[2], j)]))
            c = self.truth(self.eq(subst(e[4], [(e[2], j)]), k))
        if not self.valid(Implies(pre, Not(c)), 2000):
            raise Unsupported('mapping keys may collide')

    def map_len(self, m):
        if not m.ops: return 0
        if any(op[0] == 'prev' for op in m.ops): raise Unsupported('size of a mapping under construction')
        return self.seq_len(self.items(m))

    def map_eq(self, a, b):
        if same(a, b): return True
        ia, ib = self.items(a), self.items(b)
        n = self.eq(self.seq_len(ia), self.seq_len(ib))
        if n is False: return False
        cs = [n]
        for s in ia.segs:
            kv = s.v if type(s) is Unit else s.body
            p, v = self.map_lookup(b, kv[0])
            if p is False: c = False
            else: c = And(p, self.truth(self.eq(kv[1], v)))
            if type(s) is Comp:
                c = self.forall(s.var, Implies(And(s.var >= 0, s.var < real(s.n), s.cond), c))
            cs.append(c)
        return And(*cs)

    def pairs_to_ops(self, seq):
        ops = []
        for s in seq.segs:
            if type(s) is Unit:
                k, v = self.pair(s.v)
                ops.append(('set', k, v))
            elif type(s) is Comp:
                k, v = self.pair(s.body)
                ops.append(('loop', s.n, s.var, s.cond, k, v))
            else: raise Unsupported('mapping from a flattened sequence')
        return ops

    def pair(self, v):
        if isinstance(v, SIte) and isinstance(v.a, tuple) and isinstance(v.b, tuple) and len(v.a) == len(v.b) == 2:
            return ite(v.c, v.a[0], v.b[0]), ite(v.c, v.a[1], v.b[1])
        s = self.as_seq(self.iter_value(v))
        return self.seq_get(s, 0), self.seq_get(s, 1)

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        from . import ext
        from .engine import Raised, is_engine
        if isinstance(o, SFun) and o.cls == '__dict__':
            return ext.dict_proxy_get(self, o, k)
        if isinstance(o, H):
            r = self.rec(o)
            if r.kind == 'list':
                k = self.force(k)
                if isinstance(k, slice): return self.new_list(self.seq_slice(r.f['$c'], k.start, k.stop, k.step).segs, r.cls)
                return self.seq_get(r.f['$c'], k)
            if r.kind == 'dict':
                p, v = self.map_lookup(r.f['$c'], k)
                if self.branch(p): return v
                return ext.dict_missing(self, o, r, k)
            if r.kind == 'nd': return ext.tensor_index(self, ext.as_tensor(self, o), k)
            if r.kind == 'obj':
                m = self.class_attr(r.cls, '__getitem__')
                if issubclass(r.cls, tuple) and '$items' in r.f:
                    return self.seq_get(r.f['$items'], self.force(k))
                if m is not MISSING: return self.call(self.getattr(o, '__getitem__'), [k])
            raise Unsupported(f'subscript of {r.kind}')
        if isinstance(o, SSeq) or (isinstance(o, tuple) and not hasattr(o, '_fields')):
            k = self.force(k)
            if isinstance(k, slice):
                r = self.seq_slice(self.as_seq(o), k.start, k.stop, k.step)
                return tuple(s.v for s in r.segs) if all(type(s) is Unit for s in r.segs) else r
            return self.seq_get(self.as_seq(o), k)
        if isinstance(o, STensor): return ext.tensor_index(self, o, k)
        if isinstance(o, z3.ArithRef) or isinstance(o, (int, float)) and not isinstance(o, bool):
            return ext.tensor_index(self, ext.as_tensor(self, o), k)
        if isinstance(o, dict):
            p, v = self.map_lookup(self.as_map(o), k)
            if self.branch(p): return v
            raise Raised(KeyError(k if not is_engine(k) else repr(k)))
        if isinstance(o, SRef) or isinstance(o, SFun):
            return self.call(self.getattr(o, '__getitem__'), [k])
        if is_engine(o): raise Unsupported(f'subscript of {o!r}')
        if o is None or isinstance(o, bool): raise Raised(TypeError('object is not subscriptable'))
        return self.call_native(lambda a, b: a[b], [o, k], {})

    def setitem(self, o, k, v):
        from . import ext
        from .engine import Raised
        if isinstance(o, SFun) and o.cls == '__dict__':
            return ext.dict_proxy_set(self, o, k, v)
        if o is None: raise Raised(TypeError('object does not support item assignment'))
        if not isinstance(o, H): raise Unsupported(f'item assignment on {o!r}')
        r = self.rec(o)
        if r.kind == 'dict':
            m = self.class_attr(r.cls, '__setitem__')
            if isinstance(k, (SIte, Last)): k = self.force(k)
            self.setf(o, '$c', SMap(r.f['$c'].ops + (('set', k, v),)))
            return
        if r.kind == 'list':
            k = self.force(k)
            self.setf(o, '$c', self.seq_set(r.f['$c'], k, v))
            return
        if r.kind == 'nd': return ext.nd_setitem(self, o, r, k, v)
        if r.kind == 'obj':
            return self.call(self.getattr(o, '__setitem__'), [k, v])
        raise Unsupported('item assignment')

    def seq_set(self, seq, k, v):
        from .engine import Raised
        segs = list(seq.segs)
        if segs and type(segs[0]) is Prev:
            if isinstance(k, int) and k < 0 and -k < len(segs) and all(type(x) is Unit for x in segs[k:]):
                segs[k] = Unit(v); return SSeq(segs)
            if len(segs) > 1: raise Unsupported('update of a list under construction')
            s = segs[0]
            L = self.seq_len(s.init)
            kk = real(k)
            if not self.branch(And(kk >= 0, kk < real(L))): raise Raised(IndexError('assignment index out of range'))
            return SSeq([Prev(s.cell, s.init, tuple(u for u in s.upd if not self.proves_eq(real(u[0]), kk)) + ((kk, v),))])
        if isinstance(k, int) and k < 0:
            L = self.seq_len(seq)
            if isinstance(L, int): k += L
            elif type(segs[-1]) is Unit and k == -1:
                segs[-1] = Unit(v); return SSeq(segs)
            else: raise Unsupported('negative index assignment')
        off = k
        for q, s in enumerate(segs):
            L = self.seg_len(s)
            if self.branch(real(off) < real(L)) if (isz(off) or isz(L)) else off < L:
                if isz(off) and not self.implied(off >= 0): raise Unsupported('possibly negative index assignment')
                if not isz(off) and off < 0: raise Raised(IndexError('assignment index out of range'))
                if type(s) is Unit: segs[q] = Unit(v); return SSeq(segs)
                if type(s) is Comp and s.cond is True:
                    segs[q] = Comp(s.n, s.var, True, ite(s.var == real(off), v, s.body)); return SSeq(segs)
                raise Unsupported('item assignment')
            off = z3.simplify(real(off) - L) if (isz(off) or isz(L)) else off - L
        raise Raised(IndexError('assignment index out of range'))

    def delitem(self, o, k):
        from .engine import Raised
        from . import ext
        if isinstance(o, SFun) and o.cls == '__dict__': return ext.dict_proxy_del(self, o, k)
        if isinstance(o, H):
            r = self.rec(o)
            if r.kind == 'dict':
                p, _ = self.map_lookup(r.f['$c'], k)
                if not self.branch(p): raise Raised(KeyError(repr(k)))
                self.setf(o, '$c', SMap(r.f['$c'].ops + (('del', k),))); return
            if r.kind == 'list' and isinstance(k, int):
                c = r.f['$c']
                a = self.seq_slice(c, 0, k) if k else SSeq([])
                b = self.seq_slice(c, k + 1, None) if k != -1 else SSeq([])
                self.setf(o, '$c', SSeq(a.segs + b.segs)); return
        raise Unsupported('item deletion')

    def contains(self, o, x):
        from . import ext
        from .engine import Raised, is_engine
        o = self.force(o)
        if isinstance(o, SFun) and o.cls == '__dict__': return ext.dict_proxy_has(self, o, x)
        if isinstance(o, SFun) and o.cls == '$view': return self.seq_contains(o.data[0], x)
        if isinstance(o, H):
            r = self.rec(o)
            if r.kind == 'dict': return self.map_lookup(r.f['$c'], x)[0]
            if r.kind in ('list', 'set'): return self.seq_contains(r.f['$c'], x)
            if r.kind == 'iter': raise Unsupported('membership in an iterator')
            if r.kind == 'obj':
                if issubclass(r.cls, tuple) and '$items' in r.f: return self.seq_contains(r.f['$items'], x)
                m = self.class_attr(r.cls, '__contains__')
                if m is not MISSING: return self.truth(self.call(self.getattr(o, '__contains__'), [x]))
                if self.class_attr(r.cls, '__iter__') is not MISSING:
                    return self.seq_contains(self.iter_value(o), x)
            raise Raised(TypeError('not a container'))
        if isinstance(o, SSeq): return self.seq_contains(o, x)
        if isinstance(o, (tuple, list)): return self.seq_contains(self.as_seq(o), x)
        if isinstance(o, str):
            if isinstance(x, str): return x in o
            raise Unsupported('substring test')
        if isinstance(o, (dict, set, frozenset)) or type(o).__name__ in ('mappingproxy', 'odict_keys', 'dict_keys'):
            if not is_engine(x) and not isinstance(x, tuple): return x in o
            return self.seq_contains(SSeq([Unit(y) for y in o]), x)
        if isinstance(o, SFun) and '__contains__' in o.attrs:
            return self.truth(self.call(o.attrs['__contains__'], [x]))
        if is_engine(o): raise Unsupported(f'membership in {o!r}')
        return self.call_native(lambda a, b: b in a, [o, x], {})

    def seq_contains(self, seq, x):
        x = self.force(x) if isinstance(x, (SIte, Last)) else x
        cs = []
        for s in seq.segs:
            if type(s) is Unit:
                c = self.truth(self.eq(s.v, x))
            elif type(s) is Comp:
                if self.kind_of(x) != self.kind_of(s.body) and not isinstance(s.body, (SIte, H)): continue
                t = self.solve_key(s.body, s.var, x) if not isinstance(s.body, (H, SIte, STensor)) else None
                if t is not None:
                    c = And(t >= 0, t < real(s.n), subst(s.cond, [(s.var, t)]), self.truth(self.eq(subst(s.body, [(s.var, t)]), x)))
                    c = self.decide(c)
                else:
                    j = self.idx()
                    e = self.truth(self.eq(subst(s.body, [(s.var, j)]), x))
                    c = self.exists(j, And(j >= 0, j < real(s.n), subst(s.cond, [(s.var, j)]), e))
            elif type(s) is Flat:
                j = self.idx()
                sub = self.seq_contains(subst(s.seq, [(s.var, j)]), x)
                c = self.exists(j, And(j >= 0, j < real(s.n), subst(s.cond, [(s.var, j)]), sub))
            elif type(s) is Prev and not s.upd:
                # among the elements of before the loop, or those appended by earlier iterations (settled once the loop is solved)
                c = self.seq_contains(s.init, x) if isinstance(s.init, SSeq) else False
                if c is not True:
                    m = z3.Function(f'appended!{self.newid()}', *[z3.IntSort()] * len(self.active), z3.BoolSort())(*self.active)
                    self.prev_reads.append((('in', s.cell), x, m, list(self.active)))
                    c = Or(c, m)
            else: raise Unsupported('membership in a list under construction')
            if c is True: return True
            cs.append(c)
        return Or(*cs) if cs else False

    # ------------------------------------------------------------------ proving equality of values
    def proves_equal(self, a, b):
        return self._peq(a, b, [])

    def same_map(self, got, want):
        self.last_det = []
        return self._pmap(got, want, self.last_det)

    def prove_value(self, name, got, want):
        """Obligation: got equals want (all paths)."""
        import time
        t0 = time.time()
        det, oks = [], []
        def thunk():
            oks.append(self._peq(got, want, det))
        paths = self.explore(thunk)
        for p in paths:
            if p.kind != 'normal': oks.append(False); det.append(f'raised {p.val!r}')
        ok = all(oks)
        self.record(name, ok, 'structural+smt', time.time() - t0, '; '.join(det[:4]))
        return ok

    def _goal(self, g, det, what):
        ok = self.prove(what, g, quiet=True)
        if not ok:
            d = ''
            try:
                if self.last_result == z3.sat: d = ' model ' + str(self.last_solver.model())[:700]
            except Exception: pass
            det.append(f'{what}: not proved {str(g)[:300]}{d}\n{self.explain(g)}')
        return ok

    def _peq(self, a, b, det):
        from . import ext
        if same(a, b): return True
        a, b = self.force(a), self.force(b)
        if isinstance(a, H) and self.rec(a).kind == 'nd': a = ext.as_tensor(self, a)
        if isinstance(b, H) and self.rec(b).kind == 'nd': b = ext.as_tensor(self, b)
        if isinstance(a, np_generic()): a = a.item()
        if isinstance(b, np_generic()): b = b.item()
        if isnum(a) and isnum(b):
            if not isz(a) and not isz(b):
                if a == b: return True
                det.append(f'{a!r} != {b!r}'); return False
            if any(isinstance(x, float) and (x != x or abs(x) == float('inf')) for x in (a, b)):
                det.append(f'{a!r} != {b!r}'); return False
            g = self.num_eq(a, b)
            return True if g is True else self._goal(g, det, 'value')
        if isbool(a) and isbool(b):
            return self._goal(tobool(a) == tobool(b), det, 'truth value') if isz(a) or isz(b) else a == b
        if isinstance(a, STensor) or isinstance(b, STensor):
            if isinstance(a, STensor) and isinstance(b, STensor): return self._ptensor(a, b, det)
            if isinstance(a, STensor) and not a.axes and isnum(b): return self._peq(a.body, b, det)
            if isinstance(b, STensor) and not b.axes and isnum(a): return self._peq(a, b.body, det)
            det.append(f'{a!r} vs {b!r}'); return False
        if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
            return self._pseq(self.as_seq(a), self.as_seq(b), det)
        if isinstance(a, H) and isinstance(b, H):
            ra, rb = self.rec(a), self.rec(b)
            if ra.kind == rb.kind == 'list': return self._pseq(ra.f['$c'], rb.f['$c'], det)
            if ra.kind == rb.kind == 'dict': return self._pmap(ra.f['$c'], rb.f['$c'], det)
            if ra.kind == rb.kind == 'set':
                return self._pset(ra.f['$c'], rb.f['$c'], det)
            if a.id == b.id: return self._goal(And(*[x == y for x, y in zip(a.idx, b.idx)]), det, 'same object')
            det.append(f'{a!r} is not {b!r}'); return False
        if isinstance(a, H) and isinstance(b, (tuple, SSeq)) and self.rec(a).kind in ('list', 'iter'):
            return self._pseq(self.as_seq(a), self.as_seq(b), det)
        if isinstance(a, H) and isinstance(b, SMap) and self.rec(a).kind == 'dict':
            return self._pmap(self.rec(a).f['$c'], b, det)
        if isinstance(a, SMap) and isinstance(b, SMap): return self._pmap(a, b, det)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return self._peq(a.fn, b.fn, det) and self._peq(a.self, b.self, det)
        try:
            e = self.eq(a, b)
        except Unsupported as u:
            det.append(str(u)); return False
        if e is True: return True
        if e is False:
            det.append(f'{a!r} != {b!r}'); return False
        return self._goal(e, det, f'{a!r} == {b!r}')

    def _ptensor(self, a, b, det):
        if len(a.axes) != len(b.axes):
            det.append(f'rank {len(a.axes)} != {len(b.axes)}: {a!r} vs {b!r}'); return False
        for x, y in zip(a.axes, b.axes):
            if not (x.key is None) == (y.key is None) or (x.key is not None and not same(x.key, y.key) and not (isz(x.key) and isz(y.key) and self.implied(x.key == y.key))):
                one = lambda p: p.key is not None or isinstance(p.rank, int)
                if (x.key is None) != (y.key is None) and one(x) and one(y):
                    # a plain axis is the same as a group of rank one with as many points
                    if not self._goal(And(real(x.rank) == 1, real(y.rank) == 1), det, f'axis {x} != {y}: rank'): return False
                    if not self._goal(real(x.n) == real(y.n), det, f'axis {x} != {y}: length'): return False
                    continue
                det.append(f'axis {x} != {y}'); return False
            if not self._goal(real(x.n) == real(y.n), det, 'axis length'): return False
        iv = [self.idx('e') for _ in a.axes]
        save = list(self.pc)
        try:
            for q, (i, x) in enumerate(zip(iv, a.axes)):
                if x.key is None and self.implied(real(x.n) == 1): iv[q] = z3.IntVal(0)
                else: self.pc.append(z3.And(i >= 0, i < real(x.n)))
            return self._split(lambda: self._peq(subst(a.body, list(zip(a.ivars, iv))), subst(b.body, list(zip(b.ivars, iv))), det))
        finally:
            self.pc = save

    def _split(self, f):
        """Run f on every case; True if all hold."""
        oks = []
        ps = self.explore(lambda: oks.append(f()))
        return all(oks) and all(p.kind == 'normal' for p in ps)

    def _pseq(self, a, b, det):
        if same(a, b): return True
        sa, sb = self.norm_segs(a), self.norm_segs(b)
        while sa and sb:
            x, y = sa[0], sb[0]
            if type(x) is Unit and type(y) is Unit:
                if not self._peq(x.v, y.v, det): return False
                sa.pop(0); sb.pop(0); continue
            if type(x) is Comp and type(y) is Comp and self.same_domain(x, y):
                i = self.idx('e')
                save = list(self.pc)
                try:
                    self.pc.append(z3.And(i >= 0, i < real(x.n)))
                    c = subst(x.cond, [(x.var, i)])
                    if c is not True: self.pc.append(tobool(c))
                    ok = self._split(lambda: self._peq(subst(x.body, [(x.var, i)]), subst(y.body, [(y.var, i)]), det))
                finally:
                    self.pc = save
                if not ok: return False
                sa.pop(0); sb.pop(0); continue
            if type(x) is Flat and type(y) is Flat and self.same_domain(x, y):
                i = self.idx('e')
                save = list(self.pc)
                try:
                    self.pc.append(z3.And(i >= 0, i < real(x.n)))
                    c = subst(x.cond, [(x.var, i)])
                    if c is not True: self.pc.append(tobool(c))
                    ok = self._split(lambda: self._pseq(subst(x.seq, [(x.var, i)]), subst(y.seq, [(y.var, i)]), det))
                finally:
                    self.pc = save
                if not ok: return False
                sa.pop(0); sb.pop(0); continue
            break
        if not sa and not sb: return True
        # by length and index
        ra, rb = SSeq(sa), SSeq(sb)
        La, Lb = self.seq_len(ra), self.seq_len(rb)
        if isinstance(La, int) and isinstance(Lb, int) and La != Lb:
            det.append(f'length {La} != {Lb}: {ra!r} vs {rb!r}'); return False
        if not self._goal(real(La) == real(Lb), det, f'length of {ra!r} vs {rb!r}'): return False
        if not sa or not sb: return True
        k = self.idx('e')
        save = list(self.pc)
        try:
            self.pc.append(z3.And(k >= 0, k < real(La)))
            return self._split(lambda: self._peq(self.seq_get(ra, k), self.seq_get(rb, k), det))
        finally:
            self.pc = save

    def _pset(self, a, b, det):
        for x, y in ((a, b), (b, a)):
            for s in self.norm_segs(x):
                if type(s) is Unit:
                    if not self._goal(self.seq_contains(y, s.v), det, f'{s.v!r} in set'): return False
                elif type(s) is Comp:
                    i = self.idx('e')
                    g = self.seq_contains(y, subst(s.body, [(s.var, i)]))
                    if not self._goal(Implies(And(i >= 0, i < real(s.n), subst(s.cond, [(s.var, i)])), g), det, 'set inclusion'): return False
                else: raise Unsupported('set comparison')
        return True

    def _pmap_pointwise(self, a, b, det):
        """Same value at every key: for mappings known by their lookup, all keys of one kind."""
        for m in (a, b):
            for op in m.ops:
                if op[0] == 'base':
                    if op[1].domain is not SStr: raise Unsupported('comparison of opaque mappings')
                elif op[0] == 'set' and isinstance(self.force(op[1]), (str, SStr)): pass
                else: raise Unsupported('comparison of opaque mappings')
        k = SStr(self.idx('key'))
        (p, v), (q, w) = self.map_lookup(a, k), self.map_lookup(b, k)
        if not self._goal(And(Implies(p, q), Implies(q, p)), det, 'same keys'): return False
        save = list(self.pc)
        try:
            if p is not True: self.pc.append(tobool(p))
            return not self.feasible_strict() or self._split(lambda: self._peq(v, w, det))
        finally:
            self.pc = save

    def _pmap(self, a, b, det, ordered=False):
        """Same keys, same values (order of keys is compared separately where it matters)."""
        if same(a, b): return True
        if any(op[0] == 'base' and op[1].items is None for m in (a, b) for op in m.ops): return self._pmap_pointwise(a, b, det)
        ia, ib = self.items(a), self.items(b)
        for src, other, vals in ((ia, b, True), (ib, a, False)):
            for s in self.norm_segs(src):
                save = list(self.pc)
                try:
                    if type(s) is Unit: k, v = s.v
                    else:
                        i = self.idx('e')
                        self.pc.append(z3.And(i >= 0, i < real(s.n)))
                        c = subst(s.cond, [(s.var, i)])
                        if c is not True: self.pc.append(tobool(c))
                        k, v = subst(s.body, [(s.var, i)])
                    def one():
                        p, w = self.map_lookup(other, k)
                        if not self._goal(p, det, f'key {k!r} present'): return False
                        return self._peq(v, w, det) if vals else True
                    if self.feasible_strict() and not self._split(one): return False
                finally:
                    self.pc = save
        return True


def np_generic():
    import numpy as np
    return np.generic
