"""Loop rule: a loop over a sequence of unbounded length is replaced by its inductive summary.

The body is executed at a generic index i from a state in which every location it writes is unknown
(havoc).  A location is then given a closed form P(i) (running sum, appended comprehension, per-key
mapping entries, last value, ...) which is checked to be initiated (P(0) is the value before the loop) and
preserved (executing the body at i from P(i) yields P(i+1)) by re-executing the body.
"""
import ast
from .vals import *
from . import vals
from .engine import Break, Continue, Return, Raised, PathDead


class Cell:
    def __init__(self, key, init):
        self.key, self.init = key, init
        self.pv = None          # prev symbol (numbers / booleans)
        self.P = None           # closed form t -> value
        self.kind = None
        self.delta = None

    def __repr__(self): return f'<cell {self.key} {self.kind}>'


def has_carried(v, keys=None):
    hit = []
    def f(x):
        if isinstance(x, (Havoc, Prev)): hit.append(x); return x
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == 'prev': hit.append(x); return x
        return None
    walk(v, f)
    return bool(hit)


class LoopMixin:

    def exec_for(self, s, fr):
        it = self.iter_value(self.ev(s.iter, fr), consume=True)
        try:
            self.loop_over(it, lambda x: (self.assign(s.target, x, fr), self.block(s.body, fr)), tag=(s, fr))
        except Break:
            return
        self.block(s.orelse, fr)

    def loop_over(self, seq, body, tag=None):
        from .engine import Continue
        for sg in seq.segs:
            if type(sg) is Unit:
                try: body(sg.v)
                except Continue: pass
            elif type(sg) is Comp:
                self.summarise(sg.n, lambda t, sg=sg: subst(sg.cond, [(sg.var, t)]),
                               lambda t, sg=sg: body(subst(sg.body, [(sg.var, t)])), tag)
            elif type(sg) is Flat:
                self.summarise(sg.n, lambda t, sg=sg: subst(sg.cond, [(sg.var, t)]),
                               lambda t, sg=sg: self.loop_over(subst(sg.seq, [(sg.var, t)]), body), None)
            else:
                raise Unsupported('iteration over a list under construction')

    def summarise(self, n, cond, run, tag=None, peeled=False):
        from .engine import Continue
        n = z3.simplify(real(n)) if not isinstance(n, int) else z3.IntVal(n)
        if z3.is_int_value(n):
            k = n.as_long()
            if k <= 8:
                for j in range(k):
                    if self.branch(cond(z3.IntVal(j))):
                        try: run(z3.IntVal(j))
                        except Continue: pass
                return
        if self.implied(n <= 0): return
        base = self.snapshot()
        depth, mark = self.depth, len(self.prev_reads)
        try:
            return self._summarise(n, cond, run, tag)
        except Unsupported as e:
            del self.prev_reads[mark:]
            if peeled or getattr(e, 'final', False): raise
            self.restore(base); self.depth = depth
            try:
                return self._summarise(n, cond, run, tag, True)
            except Unsupported as e3:
                if getattr(e3, 'final', False): raise
                self.restore(base); self.depth = depth
                del self.prev_reads[mark:]
            # peel the first iteration (needed when the first iteration initialises state)
            if not self.branch(n > 0): return
            try:
                if self.branch(cond(z3.IntVal(0))):
                    try: run(z3.IntVal(0))
                    except Continue: pass
                self.summarise(z3.simplify(n - 1), lambda t: cond(z3.simplify(t + 1)),
                               lambda t: run(z3.simplify(t + 1)), tag, True)
            except Unsupported as e2:
                raise e

    def opaque(self, t):
        """Does the term refer to the value a loop carries whose closed form is still being looked for?

        Such terms occur in discovery rounds only: the last round of every summary runs on closed forms,
        so that what is taken for granted about them in the others is checked there."""
        known = set().union(*self.unsolved) if self.unsolved else ()
        if not known: return False
        return any(contains(t, x) for x in known)

    def _summarise(self, n, cond, run, tag=None, ew=False):
        self.unsolved.append(set())
        depth = len(self.unsolved)
        try: return self._summarise2(n, cond, run, tag, ew)
        finally: del self.unsolved[depth - 1:]

    def _summarise2(self, n, cond, run, tag=None, ew=False):
        base = self.snapshot()
        i = self.idx()
        inv = self.find_invariant(tag, n)
        cells = {}
        kept = {}               # objects of earlier rounds that closed forms refer to

        def enter(at=None):
            """State at the start of iteration i."""
            self.restore(base)
            self.active = base[2] + [i]
            self.pc.append(z3.And(i >= 0, i < n))
            c = cond(i)
            if c is False: self.pc.append(z3.BoolVal(False))        # nothing is visited: the loop is left as it was entered
            elif c is not True: self.assume(c)
            self.heap.update(kept)
            for cell in cells.values():
                self.put(cell, self.carried(cell, i))
            self.unsolved[-1] = {c.pv for c in cells.values() if c.P is None and c.pv is not None}

        enter()
        if not self.feasible_strict():
            self.restore(base)
            return
        used_ew = False
        mark = len(self.prev_reads)
        for rnd in range(14):
            enter()
            st = self.snapshot()
            del self.prev_reads[mark:]
            paths = self.explore(lambda: run(i))
            new = False
            for p in paths:
                for key in self.changed(st[0], p.heap):
                    if key not in cells:
                        cells[key] = self.new_cell(key, base[0], inv)
                        self.unit_cell(cells[key], p)
                        if ew and cells[key].kind == 'prevlist' and self.elementwise_cell(cells[key]): used_ew = True
                        new = True
            if new: continue
            normal = [p for p in paths if p.kind == 'normal']
            for cell in cells.values():
                # a local variable that is given a new tuple each time is not a list that grows
                r = base[0].get(cell.key[0])
                if cell.kind == 'prevlist' and r is not None and r.kind == 'frame' and normal and not any(self.grows(cell, self.final(cell, p)) for p in normal):
                    cell.kind, new = None, True
            if new: continue
            if ew and not used_ew: raise Unsupported('no elementwise updates')
            progress = False
            for cell in cells.values():
                if cell.kind in ('prevlist', 'prevmap', 'family'): continue
                if cell.P is None:
                    self.round_base = base[0]
                    if self.solve_cell(cell, normal, n, i, cond, cells):
                        progress = True
                        if cell.kind == 'last':
                            for p in normal: kept.update(self.reachable(self.final(cell, p), p.heap, base[0]))
                            self.frozen.update(kept)
            if progress: continue
            bad = [c for c in cells.values() if c.P is None and c.kind not in ('prevlist', 'prevmap', 'family')]
            for c in bad:
                # a variable first assigned inside the loop: unknown afterwards (reading it is refused)
                if c.init is MISSING:
                    c.kind, c.P = 'poison', (lambda t, c=c: Havoc(c.key, c.init))
            bad = [c for c in bad if c.kind != 'poison']
            if bad:
                raise Unsupported(f'no closed form for loop-carried {bad[0].key} at {getattr(tag[0], "lineno", "?") if tag else "?"}')
            break
        else:
            raise Unsupported('loop summary did not converge')

        self.unsolved[-1] = set()
        # preservation of the closed forms on the final run
        for cell in cells.values():
            if cell.kind in ('sum', 'acc', 'inv', 'unit', 'ew', 'rows'):
                self.check_preserved(cell, normal, i, n, cond)
        for cell in cells.values():
            if cell.kind in ('prevlist', 'prevmap', 'family'):
                self.solve_container(cell, normal, n, i, cond, st[0])
        # side facts of generic iterations
        facts = []
        for p in paths:
            dec = []
            for c in p.pc:
                if c.get_id() in self.factset: facts.append((list(dec), c))
                else: dec.append(c)
        exits = [p for p in paths if p.kind != 'normal']
        # leave the loop
        self.restore(base)
        self.heap.update(kept)
        fams = {}
        for p in paths:
            for k, r in p.heap.items():
                if k not in base[0]: fams[k] = r
        self.heap.update(fams)
        for dec, c in facts:
            pre = And(i >= 0, i < n, cond(i), *dec)
            self.assume_fact(self.forall(i, Implies(pre, c)))
        ex = None
        if exits:
            X = Or(*[And(*[c for c in p.pc if c.get_id() not in self.factset]) for p in exits])
            if X is True: X = z3.BoolVal(True)
            noexit = self.forall(i, Implies(And(i >= 0, i < n, cond(i)), Not(X)))
            if not self.branch(noexit):
                m = self.fresh('m', z3.IntSort())
                Xm = subst(X, [(i, m)])
                for x in (z3.And(m >= 0, m < n), cond(m), Xm): self.assume_fact(tobool(x))
                self.assume_fact(self.forall(i, Implies(And(i >= 0, i < m, cond(i)), Not(X))))
                for cell in cells.values(): self.put(cell, cell.P(m))
                run(m)      # must leave the loop
                raise self.dead()
        for cell in cells.values():
            self.put(cell, cell.P(n))
        return

    def reachable(self, v, heap, old):
        """The objects a value refers to that the loop body created."""
        out, todo = {}, [v]
        def f(x):
            if isinstance(x, H) and x.id not in out and x.id in heap and x.id not in old:
                out[x.id] = r = heap[x.id]
                todo.extend(r.f.values())
                for _, o in r.over: todo.extend(o.f.values())
            return None
        while todo: walk(todo.pop(), f)
        return out

    def dead(self):
        from .engine import PathDead
        return PathDead()

    # ------------------------------------------------------------------ cells
    def changed(self, h0, h1):
        out = []
        for k, r0 in h0.items():
            r1 = h1.get(k)
            if r1 is r0 or r1 is None: continue
            for f in set(r0.f) | set(r1.f):
                if not same(r0.f.get(f, MISSING), r1.f.get(f, MISSING)):
                    out.append((k, f))
            if r0.over != r1.over:
                out.append((k, '$over'))
        for k in h1:
            if k not in h0 and isinstance(k, tuple) and k[0] == 'attr':
                out.append((k, '$c'))
        return out

    def new_cell(self, key, heap, inv):
        k, f = key
        r = heap.get(k)
        init = r.f.get(f, MISSING) if r is not None else SMap()
        c = Cell(key, init)
        if f == '$over':
            c.kind = 'family'
            return c
        if inv is not None:
            P = inv(key, r, init)
            if P is not None:
                c.kind, c.P = 'inv', P
                return c
        if isinstance(init, SSeq): c.kind = 'prevlist'
        elif isinstance(init, SMap): c.kind = 'prevmap'
        elif r is not None and r.kind == 'nd' and f == '$t' and type(init) is STensor and not r.over:
            c.kind, c.iv = 'rows', tuple(r.ivars) + tuple(init.ivars)
            c.pf = z3.Function('prev%d' % self.newid(), *[z3.IntSort()] * len(c.iv), z3.RealSort())
        return c

    def solve_rows(self, cell, normal, n, i, cond):
        """An array of which iteration i writes the elements with index i (+ an offset) along one axis, and no others."""
        init, iv, pf = cell.init, cell.iv, cell.pf
        own = pf(*iv)
        arms = []
        for p in normal:
            v = self.final(cell, p)
            if type(v) is not STensor or len(v.axes) != len(init.axes) or not all(same(a.n, b.n) and same(a.key, b.key) for a, b in zip(v.axes, init.axes)): return False
            arms.append((p, self.decs(p), z3.simplify(real(subst(v.body, list(zip(v.ivars, init.ivars)))))))
        def own_only(e):
            seen, st = set(), [e]
            while st:
                y = st.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_quantifier(y): st.append(y.body()); continue
                if z3.is_app(y) and y.decl().eq(pf) and not y.eq(own): return False
                st.extend(y.children())
            return True
        for q in range(len(init.ivars)):
            w = init.ivars[q]
            for off in (0, 1, 2):
                at = z3.simplify(i + off)
                if not all(self.entails_in(p, i, n, cond, Implies(w != at, b == own)) for p, c, b in arms): continue
                ds = []
                for p, c, b in arms:
                    b = self.in_range(z3.simplify(subst(b, [(w, at)])), None, None) if False else z3.simplify(subst(b, [(w, at)]))
                    b = z3.simplify(subst(b, [(pf(*[x if x is not w else at for x in iv]), own)]))
                    if not own_only(b) or has_carried(b): break
                    ds.append((c, b))
                else:
                    def P(t, w=w, off=off, ds=ds):
                        j = z3.simplify(w - off)
                        new = None
                        for c, b in reversed(ds):
                            b = z3.substitute(subst(b, [(i, j)]), (own, real(init.body)))
                            new = b if new is None else ite(subst(c, [(i, j)]), b, new)
                        g = And(j >= 0, j < t, subst(cond(i), [(i, j)]))
                        return STensor(init.axes, init.ivars, ite(g, new, real(init.body)))
                    cell.P, cell.delta = P, (w, off)
                    return True
        return False

    def preserved_rows(self, cell, p, v, i, n, cond):
        init = cell.init
        want = cell.P(z3.simplify(i + 1))
        if type(v) is not STensor or len(v.axes) != len(init.axes) or not all(same(a.n, b.n) and same(a.key, b.key) for a, b in zip(v.axes, init.axes)): return False
        b = subst(v.body, list(zip(v.ivars, init.ivars)))
        w, off = cell.delta
        return self.entails_in(p, i, n, cond, Implies(w != i + off, self.num_eq(b, want.body))) and \
            self.entails_in(p, i, n, cond, self.num_eq(z3.simplify(subst(b, [(w, i + off)])), z3.simplify(subst(want.body, [(w, i + off)]))))

    def unit_cell(self, cell, p):
        """An array that gains one trailing axis of length one per iteration."""
        t, v = cell.init, self.final(cell, p)
        if type(t) is not STensor or type(v) is not STensor or len(v.axes) != len(t.axes) + 1: return
        if not same(v.body, subst(t.body, list(zip(t.ivars, v.ivars)))): return
        from .ext import is_unit
        if not is_unit(v.axes[-1]) or not all(same(a.n, b.n) and same(a.key, b.key) for a, b in zip(t.axes, v.axes)): return
        cell.kind = 'unit'
        u = self.idx('u')
        cell.P = lambda k: STensor(t.axes + (Axis(z3.IntVal(1), None, real(k)),), t.ivars + (u,), t.body)

    def elementwise_cell(self, cell):
        """A list of numbers whose elements accumulate one by one (several are updated per iteration)."""
        init = cell.init
        if len(init.segs) != 1 or type(init.segs[0]) is not Comp or init.segs[0].cond is not True or not isnum(init.segs[0].body): return False
        cell.kind = 'ew'
        cell.pf = z3.Function('prev%d' % self.newid(), z3.IntSort(), z3.RealSort())
        return True

    def same_axes(self, a, b):
        """Same array up to the grouping of axes of length one."""
        from .ext import is_unit
        def norm(t):
            out = []
            for x, v in zip(t.axes, t.ivars):
                if is_unit(x) and contains(t.body, v): return None
                if is_unit(x) and out and is_unit(out[-1][0]): out[-1] = (Axis(x.n, None, z3.simplify(real(out[-1][0].rank) + real(x.rank))), v)
                else: out.append((x, v))
            return out
        x, y = norm(a), norm(b)
        if x is None or y is None or len(x) != len(y): return False
        for (p, _), (q, _) in zip(x, y):
            if p.key is not None or q.key is not None:
                if not same(p.key, q.key): return False
            elif not self.proves_eq(real(p.n), real(q.n)) or not self.proves_eq(real(p.rank), real(q.rank)): return False
        return same(a.body, subst(b.body, [(w, v) for (_, v), (_, w) in zip(x, y)]))

    def carried(self, cell, i):
        if cell.P is not None and cell.kind not in ('prevlist', 'prevmap'):
            return cell.P(i)
        init = cell.init
        if cell.kind == 'ew':
            sg = init.segs[0]
            return SSeq([Comp(sg.n, sg.var, True, cell.pf(sg.var))])
        if cell.kind == 'rows': return STensor(init.axes, init.ivars, cell.pf(*cell.iv))
        if cell.kind == 'prevlist': return SSeq([Prev(cell.key, init)])
        if cell.kind == 'prevmap': return SMap([('prev', cell.key, init)])
        if cell.kind == 'family': return None
        if isbool(init):
            if cell.pv is None: cell.pv = self.const('prev', z3.BoolSort())
            return cell.pv
        if isnum(init) and not (isinstance(init, float) and init in (float('inf'), float('-inf'))):
            if cell.pv is None:
                t = real(init)
                cell.pv = self.const('prev', z3.RealSort() if (t.is_real() or getattr(cell, 'wide', False)) else z3.IntSort())
            return cell.pv
        return Havoc(cell.key, init)

    def put(self, cell, v):
        k, f = cell.key
        if f == '$over':
            if v is None: return
            self.heap[k] = v
            return
        r = self.heap.get(k)
        if r is None: r = Rec('dict', dict, {'$c': SMap()})
        nf = dict(r.f); nf[f] = v
        self.heap[k] = Rec(r.kind, r.cls, nf, r.ivars, r.over, r.tag)

    def final(self, cell, p):
        k, f = cell.key
        r = p.heap.get(k)
        return r.f.get(f, MISSING) if r is not None else MISSING

    def decs(self, p):
        return And(*[c for c in p.pc if c.get_id() not in self.factset])

    def solve_cell(self, cell, normal, n, i, cond, cells):
        """Closed form for a numeric, boolean or overwritten cell."""
        if cell.kind == 'rows': return self.solve_rows(cell, normal, n, i, cond)
        if cell.kind == 'ew': return self.solve_elementwise(cell, normal, n, i, cond, cells)
        others = [c.pv for c in cells.values() if c.pv is not None and c is not cell and c.P is None]
        pv = cell.pv
        fin = [(self.decs(p), self.final(cell, p)) for p in normal]
        new = {}
        for p in normal:
            for k, r in p.heap.items():
                if isinstance(k, int) and k not in self.frozen and k not in self.round_base: new[k] = r
        def clean(v, allow_self=False):
            if has_carried(v): return False
            for r in self.reachable(v, new, {}).values():
                for x in list(r.f.values()) + [y for _, o in r.over for y in o.f.values()]:
                    if has_carried(x): return False
                    if any(contains(x, o) for o in unk): return False
            for o in others:
                if contains(v, o): return False
            if pv is not None and not allow_self and contains(v, pv): return False
            return True
        unk = others + ([pv] if pv is not None else [])
        strict = not any(isz(c) and contains(c, o) for c, _ in fin for o in unk)
        # conditions on unknown cells are dropped from the candidate; check_preserved decides
        fin0, fin = fin, [(And(*[x for x in p.pc if x.get_id() not in self.factset and not any(contains(x, o) for o in unk)]), self.final(cell, p)) for p in normal]
        if not fin:
            cell.kind, cell.P = 'const', (lambda t: cell.init)
            return True
        # additive
        if pv is not None and isinstance(pv, z3.ArithRef):
            ds, acc = [], False
            for c, v in fin:
                if isinstance(v, STensor) and v.axes:
                    d = z3.simplify(real(v.body) - pv)
                    if contains(d, pv):
                        ds = None; break
                    ds.append((c, STensor(v.axes, v.ivars, d))); acc = True
                elif isnum(v):
                    d = z3.simplify(real(v) - pv)
                    if contains(d, pv): ds = None; break
                    ds.append((c, d))
                else: ds = None; break
            if ds is not None and any(contains(v, pv) for _, v in fin):
                if all(clean(d) for _, d in ds):
                    if not acc:
                        if pv.is_int() and any(d.is_real() for _, d in ds) and not all(self.integral(d) for _, d in ds):
                            if not getattr(cell, 'wide', False):
                                cell.wide, cell.pv = True, None
                                return True
                        delta = ds[-1][1]
                        for c, d in reversed(ds[:-1]): delta = ite(c, d, delta)
                        cell.delta = delta
                        cell.kind = 'sum'
                        def P(t, delta=delta, cell=cell):
                            return self.add(cell.init, self.sum_term(t, i, cond(i), delta))
                        cell.P = P
                        return True
                    # array accumulator: every contributing path adds an array of the same shape
                    ts = [d for _, d in ds if isinstance(d, STensor)]
                    ax, iv = ts[0].axes, ts[0].ivars
                    delta, upd = None, False
                    for c, d in reversed(ds):
                        if isinstance(d, STensor):
                            if len(d.axes) != len(ax) or not all(same(x.n, y.n) for x, y in zip(d.axes, ax)): return False
                            b = subst(d.body, list(zip(d.ivars, iv))); u = True
                        else:
                            if not is_zero(d): return False
                            b = z3.RealVal(0); u = False
                        delta = b if delta is None else ite(c, b, delta)
                        upd = u if upd is False and delta is b else ite(c, u, upd)
                    for a in ax:
                        if isz(a.n) and contains(a.n, i): return False
                    cell.kind, cell.delta, cell.upd, cell.ax, cell.iv = 'acc', delta, upd, ax, iv
                    def P(t, cell=cell, ax=ax, iv=iv, delta=delta, upd=upd):
                        body = self.add(cell.init, self.sum_term(t, i, cond(i), delta))
                        some = self.some_before(t, i, And(cond(i), upd))
                        return ite(some, STensor(ax, iv, body), cell.init)
                    cell.P = P
                    return True
        # overwritten
        fin = fin0
        if strict and all(isinstance(v, Havoc) and v.cell == cell.key or (pv is not None and isz(v) and v.eq(pv)) or clean(v) for _, v in fin):
            setc, val = [], None
            for c, v in fin:
                keep = (isinstance(v, Havoc) and v.cell == cell.key) or (pv is not None and isz(v) and v.eq(pv))
                if keep: continue
                setc.append(c)
                val = v if val is None else ite(c, v, val)
            if not setc:
                cell.kind, cell.P = 'const', (lambda t: cell.init); return True
            sc = True if len(setc) == len(fin) else Or(*setc)
            for o in others:
                if isz(sc) and contains(sc, o): return False
            cell.kind = 'last'
            if isinstance(val, bool) and isbool(cell.init):
                def P(t, val=val, sc=sc):
                    some = self.some_before(t, i, And(cond(i), sc))
                    return ite(some, val, cell.init)
                cell.P = P
                return True
            def P(t, val=val, sc=sc, cell=cell):
                if sc is True and cond(i) is True and self.implied(real(t) > 0): return subst(val, [(i, z3.simplify(real(t) - 1))])
                return Last(t, i, self.tocond(And(cond(i), sc)), val, cell.init)
            cell.P = P
            return True
        return False

    def some_before(self, t, i, c):
        """c holds at some index below t."""
        if c is True: return z3.simplify(real(t) > 0)
        q = z3.Int('$q')
        return self.exists(q, And(q >= 0, q < t, subst(c, [(i, q)])))

    def tocond(self, c):
        return c

    def solve_elementwise(self, cell, normal, n, i, cond, cells):
        sg = cell.init.segs[0]
        k = sg.var
        own = cell.pf(k)
        arms = []                     # (condition, tensor or number added)
        for p in normal:
            v = self.final(cell, p)
            if not isinstance(v, SSeq) or len(v.segs) != 1 or type(v.segs[0]) is not Comp or v.segs[0].cond is not True or not self.proves_eq(real(v.segs[0].n), real(sg.n)): return False
            b = subst(v.segs[0].body, [(v.segs[0].var, k)])
            def leaves(x, c):
                if isinstance(x, SIte): leaves(x.a, And(c, x.c)); leaves(x.b, And(c, Not(x.c)))
                else: arms.append((c, x))
            leaves(b, self.decs(p))
        ds, ax, iv = [], None, None
        for c, x in arms:
            if isinstance(x, STensor):
                if ax is None: ax, iv = x.axes, x.ivars
                if len(x.axes) != len(ax) or not all(same(a.n, b.n) and same(a.key, b.key) for a, b in zip(x.axes, ax)): return False
                d = z3.simplify(real(subst(x.body, list(zip(x.ivars, iv)))) - own); u = True
            elif isnum(x): d = z3.simplify(real(x) - own); u = False
            else: return False
            if uses_fn(d, cell.pf) or has_carried(d) or uses_fn(c, cell.pf) or any(x.pv is not None and x.P is None and contains(d, x.pv) for x in cells.values()): return False
            ds.append((c, d, u))
        if ax is not None and any(not u and not is_zero(d) for _, d, u in ds): return False
        for a in ax or ():
            if isz(a.n) and (contains(a.n, i) or contains(a.n, k)): return False
        delta, upd = ds[-1][1], ds[-1][2]
        for c, d, u in reversed(ds[:-1]): delta, upd = ite(c, d, delta), ite(c, u, upd)
        delta = self.in_range(z3.simplify(real(delta)), k, real(sg.n))
        if isz(upd): upd = self.in_range(z3.simplify(z3.If(tobool(upd), z3.IntVal(1), z3.IntVal(0))), k, real(sg.n)) == 1
        if isz(upd):
            upd = z3.simplify(upd)
            if z3.is_true(upd) or z3.is_false(upd): upd = z3.is_true(upd)
            elif contains(upd, k): return False
        cell.delta, cell.upd, cell.ax, cell.iv = delta, upd, ax, iv
        init = sg.body
        def P(t):
            b = self.add(init, self.sum_term(t, i, cond(i), delta))
            if ax is not None: b = ite(self.some_before(t, i, And(cond(i), upd)), STensor(ax, iv, b), init)
            return SSeq([Comp(sg.n, k, True, b)])
        cell.P = P
        return True

    def preserved_elementwise(self, cell, p, v, i, n, cond):
        sg = cell.init.segs[0]
        k = sg.var
        def bad(): return Unsupported(f'closed form of {cell.key} not preserved')
        if not isinstance(v, SSeq) or len(v.segs) != 1 or type(v.segs[0]) is not Comp or v.segs[0].cond is not True: raise bad()
        b = subst(v.segs[0].body, [(v.segs[0].var, k)])
        sm = self.sum_term(i, i, cond(i), cell.delta)
        want = real(self.add(sg.body, sm)) + real(cell.delta)
        some = self.some_before(i, i, And(cond(i), cell.upd))
        inr = And(k >= 0, k < real(sg.n))
        def leaf(x, c):
            if isinstance(x, SIte): return leaf(x.a, And(c, x.c)) and leaf(x.b, And(c, Not(x.c)))
            pre = And(inr, c)
            if cell.ax is not None: pre = And(pre, Implies(Not(some), real(sm) == 0))
            if isinstance(x, STensor):
                if cell.ax is None or len(x.axes) != len(cell.ax) or not all(same(a.n, b.n) and same(a.key, b.key) for a, b in zip(x.axes, cell.ax)): return False
                if not self.entails_in(p, i, n, cond, Implies(pre, Or(some, cell.upd))): return False
                return self.entails_in(p, i, n, cond, Implies(pre, self.num_eq(subst(x.body, list(zip(x.ivars, cell.iv))), want)))
            if isnum(x):
                if cell.ax is not None:      # no array yet
                    if not self.entails_in(p, i, n, cond, Implies(pre, Not(Or(some, cell.upd)))): return False
                    return self.entails_in(p, i, n, cond, Implies(pre, self.num_eq(x, sg.body)))
                return self.entails_in(p, i, n, cond, Implies(pre, self.num_eq(x, want)))
            return False
        if not leaf(b, True): raise bad()

    def integral(self, t):
        return t.is_int()

    def add(self, a, b):
        if isinstance(a, int) and a == 0: return b
        if is_zero(b): return a
        return real(a) + real(b)

    def check_preserved(self, cell, normal, i, n, cond):
        nxt = None
        for p in normal:
            v = self.final(cell, p)
            if cell.kind == 'sum':
                if not isnum(v): raise Unsupported('loop-carried number changes type')
                d = z3.simplify(real(v) - real(cell.P(i)))
                ok = self.entails_in(p, i, n, cond, self.num_eq(d, cell.delta))
                if not ok: raise Unsupported(f'closed form of {cell.key} not preserved')
            elif cell.kind == 'acc':
                # final run starts from the SIte form; each arm must add delta
                def flat(x):
                    return x
                if isinstance(v, STensor):
                    if len(v.axes) != len(cell.ax): raise Unsupported('accumulator shape')
                    b = subst(v.body, list(zip(v.ivars, cell.iv)))
                elif isnum(v): b = real(v)
                elif isinstance(v, SIte): continue   # untouched on this path
                else: raise Unsupported('accumulator type')
                prev = self.add(cell.init, self.sum_term(i, i, cond(i), cell.delta)) if False else None
                # P(i)'s two arms have the same elements (an empty sum is zero)
                e = self.add(cell.init, self.sum_term_at(i, i, cond, cell.delta))
                sm = self.sum_term_at(i, i, cond, cell.delta)
                some = self.some_before(i, i, And(cond(i), cell.upd))
                # induction: a sum without any contributing term is zero
                nosum = Implies(Not(some), real(sm) == 0)
                ok = self.entails_in(p, i, n, cond, Implies(nosum, self.num_eq(b, real(e) + real(cell.delta))))
                if not ok:
                    import os
                    if os.environ.get('PYVC_TRACE'): print('ACC', b, '\n  ==', real(e) + real(cell.delta), '\n', p.pc)
                    raise Unsupported(f'accumulator {cell.key} not preserved')
            elif cell.kind == 'ew':
                self.preserved_elementwise(cell, p, v, i, n, cond)
            elif cell.kind == 'rows':
                if not self.preserved_rows(cell, p, v, i, n, cond): raise Unsupported(f'closed form of {cell.key} not preserved')
            elif cell.kind == 'unit':
                if not self.entails_in(p, i, n, cond, True) or not isinstance(v, STensor) or not self.same_axes(v, cell.P(z3.simplify(i + 1))):
                    raise Unsupported(f'closed form of {cell.key} not preserved')
            elif cell.kind == 'inv':
                want = cell.P(z3.simplify(i + 1))
                ok = self.inv_eq(p, v, want)
                import os
                if not ok and os.environ.get('PYVC_TRACE'): print('INV', v, '\n  want', want, '\n', p.pc, self.last_det)
                self.record(f'loop invariant of {cell.key[1]} preserved', ok)
                if not ok: raise Unsupported(f'invariant of {cell.key} not preserved')
        if cell.kind == 'inv':
            ok = self.inv_eq(None, cell.init, cell.P(z3.IntVal(0)))
            self.record(f'loop invariant of {cell.key[1]} holds initially', ok)
            if not ok: raise Unsupported('invariant not initiated')

    def sum_term_at(self, t, i, cond, delta):
        return self.sum_term(t, i, cond(i), delta)

    def entails_in(self, p, i, n, cond, goal):
        save = self.snapshot()
        try:
            self.pc = self.pc + p.pc
            self.pc.append(z3.And(i >= 0, i < n))
            c = cond(i)
            if c is not True: self.pc.append(c)
            if goal is True: return True
            return self.valid(goal)
        finally:
            self.restore(save)

    def inv_eq(self, p, got, want):
        save = self.snapshot()
        try:
            if p is not None:
                self.heap = p.heap
                self.pc = self.pc + p.pc
            return self.same_map(got, want) if isinstance(want, SMap) else self.proves_equal(got, want)
        finally:
            self.restore(save)

    # ------------------------------------------------------------------ containers
    def solve_container(self, cell, normal, n, i, cond, h0):
        if cell.kind == 'family': return self.solve_family(cell, normal, n, i, cond, h0)
        if cell.kind == 'prevlist': return self.solve_list(cell, normal, n, i, cond)
        return self.solve_map(cell, normal, n, i, cond)

    def solve_list(self, cell, normal, n, i, cond):
        app, upd = [], []
        for p in normal:
            v = self.final(cell, p)
            if not isinstance(v, SSeq) or not v.segs or type(v.segs[0]) is not Prev or v.segs[0].cell != cell.key:
                # overwritten list content
                return self.solve_overwritten(cell, normal, n, i, cond)
            d = self.decs(p)
            for s in v.segs[1:]:
                if has_carried(SSeq([s])): raise Unsupported('list element refers to the list under construction')
            app.append((d, v.segs[1:])); upd.append((d, v.segs[0].upd))
        if any(u for _, u in upd):
            if any(a for _, a in app): raise Unsupported('list both updated and appended to')
            return self.solve_updates(cell, upd, n, i, cond)
        tests = [r for r in self.prev_reads if r[0] == ('in', cell.key)]
        if all(len(a) == 0 or (len(a) == 1 and type(a[0]) is Unit) for _, a in app):
            hits = [(c, a[0].v) for c, a in app if a]
            if not hits:
                for _, x, m, act in tests: self.define(m, False, act)
                cell.P = lambda t: cell.init; return
            val = hits[-1][1]
            for c, v in reversed(hits[:-1]): val = ite(c, v, val)
            sc = True if len(hits) == len(app) else Or(*[c for c, _ in hits])
            for _, x, m, act in tests:
                # membership of x among what iterations before this one have appended
                j = self.idx('b')
                e = self.truth(self.eq(subst(val, [(i, j)]), x))
                hit = And(j >= 0, j < i, subst(cond(i), [(i, j)]), subst(sc, [(i, j)]) if isz(sc) else sc, e)
                none = e is False or self.implied(Implies(And(i >= 0, i < n, cond(i), j >= 0, j < i, subst(cond(i), [(i, j)])), Not(e)))
                self.define(m, False if none else self.exists(j, hit), act)
            def P(t):
                return SSeq(cell.init.segs + (Comp(t, i, And(cond(i), sc), val),))
            cell.P = P
            return
        if tests: raise Unsupported('membership in a list under construction')
        segs = []
        for c, a in app:
            for s in a:
                if c is True: segs.append(s)
                elif type(s) is Unit:
                    j = self.idx('u'); segs.append(Comp(z3.IntVal(1), j, c, s.v))
                elif type(s) is Comp: segs.append(Comp(s.n, s.var, And(c, s.cond), s.body))
                elif type(s) is Flat: segs.append(Flat(s.n, s.var, And(c, s.cond), s.seq))
                else: raise Unsupported('list under construction')
        def P(t):
            return SSeq(cell.init.segs + (Flat(t, i, cond(i), SSeq(segs)),))
        cell.P = P

    def define(self, m, d, act):
        """m, applied to the indices of the loops it is in, stands for d there."""
        d = tobool(d)
        if not isz(d): d = z3.BoolVal(d)
        self.ax_by_fn.setdefault(m.decl().name(), []).append(z3.ForAll(list(act), m == d, patterns=[m]))

    def grows(self, cell, v):
        return isinstance(v, SSeq) and any(type(s) is Prev and s.cell == cell.key for s in v.segs)

    def solve_overwritten(self, cell, normal, n, i, cond):
        raise Unsupported(f'list {cell.key} rewritten in a loop')

    def solve_updates(self, cell, upd, n, i, cond):
        """lst[i + c] = v in iteration i."""
        init = cell.init
        if len(init.segs) != 1 or type(init.segs[0]) is not Comp or init.segs[0].cond is not True:
            raise Unsupported('update of an irregular list')
        sg = init.segs[0]
        off = None
        vals_ = []
        for c, us in upd:
            if len(us) > 1: raise Unsupported('several updates per iteration')
            for ix, v in us:
                d = z3.simplify(real(ix) - i)
                if not z3.is_int_value(d): raise Unsupported('irregular list update')
                if off is None: off = d
                elif not off.eq(d): raise Unsupported('irregular list update')
                if has_carried(v): raise Unsupported('list update')
                vals_.append((c, v))
        for ck, ix in [r for r in self.prev_reads if r[0] == cell.key]:
            d = z3.simplify(real(ix) - i)
            if not (z3.is_int_value(d) and d.eq(off)): raise Unsupported('list read at another index')
        def P(t):
            k = self.idx('k')
            j = z3.simplify(k - off)
            old = subst(sg.body, [(sg.var, k)])
            new = old
            for c, v in reversed(vals_):
                new = ite(And(subst(c, [(i, j)]), True) if c is not True else True, subst(v, [(i, j)]), new)
            g = And(j >= 0, j < t, subst(cond(i), [(i, j)]))
            if isz(g) and self.implied(Implies(And(k >= 0, k < real(sg.n)), g)): g = True
            return SSeq([Comp(sg.n, k, True, ite(g, new, old))])
        cell.P = P

    def solve_map(self, cell, normal, n, i, cond):
        per = []
        for p in normal:
            v = self.final(cell, p)
            if v is MISSING: per.append((self.decs(p), ())); continue
            if not isinstance(v, SMap) or not v.ops or v.ops[0][0] != 'prev' or v.ops[0][1] != cell.key:
                if isinstance(v, SMap) and cell.key[0].__class__ is tuple:
                    per.append((self.decs(p), v.ops)); continue
                raise Unsupported('mapping rewritten in a loop')
            per.append((self.decs(p), v.ops[1:]))
        for _, ops in per:
            for op in ops:
                if has_carried(op): raise Unsupported('mapping entry refers to the mapping under construction')
        init = cell.init if isinstance(cell.init, SMap) else SMap()
        self.check_map_reads(cell, per, n, i, cond)
        if all(len(o) <= 1 and all(x[0] == 'set' for x in o) for _, o in per):
            hits = [(c, o[0]) for c, o in per if o]
            if not hits:
                cell.P = lambda t: init; return
            k, v = hits[-1][1][1], hits[-1][1][2]
            for c, o in reversed(hits[:-1]):
                k, v = ite(c, o[1], k), ite(c, o[2], v)
            sc = True if len(hits) == len(per) else Or(*[c for c, _ in hits])
            cell.P = lambda t: SMap(init.ops + (('loop', t, i, And(cond(i), sc), k, v),))
            return
        if all(len(o) <= 1 and all(x[0] == 'del' for x in o) for _, o in per):
            hits = [(c, o[0]) for c, o in per if o]
            k = hits[-1][1][1]
            for c, o in reversed(hits[:-1]): k = ite(c, o[1], k)
            sc = True if len(hits) == len(per) else Or(*[c for c, _ in hits])
            cell.P = lambda t: SMap(init.ops + (('ldel', t, i, And(cond(i), sc), k),))
            return
        # several entries per iteration: the entries of one iteration must not interfere with those of another
        ops = []
        nset = max(len(o) for _, o in per)
        flat = [(c, op) for c, o in per for op in o]
        for c, op in flat:
            if op[0] == 'del':
                pass
            elif op[0] not in ('set', 'loop'): raise Unsupported('mapping operation in a loop')
        # pop-and-reinsert: [del k1, set k2] with k1 never equal to any k2
        j = self.idx('j')
        for a in range(len(flat)):
            for b in range(len(flat)):
                (ca, oa), (cb, ob) = flat[a], flat[b]
                if a == b and oa[0] in ('set', 'del'): continue
                ka, kb = self.op_key(oa), self.op_key(ob)
                kb2 = subst(kb, [(i, j)])
                g = And(i >= 0, i < n, j >= 0, j < n, i != j, cond(i), cond(j), ca, subst(cb, [(i, j)]))
                if oa[0] == 'loop': g = And(g, oa[2] >= 0, oa[2] < oa[1], oa[3])
                if ob[0] == 'loop':
                    u = self.idx('u')
                    kb2 = subst(kb2, [(ob[2], u)])
                    g = And(g, u >= 0, u < subst(ob[1], [(i, j)]), subst(ob[3], [(i, j), (ob[2], u)]))
                ne = Not(self.eq(ka, kb2))
                if ne is True: continue
                if not self.valid(Implies(g, ne)):
                    raise Unsupported('entries of different iterations may collide')
        order = []
        for c, o in per:
            for op in o:
                cc = And(cond(i), c)
                if op[0] == 'set': order.append(('loop', None, i, cc, op[1], op[2]))
                elif op[0] == 'del': order.append(('ldel', None, i, cc, op[1]))
                else:
                    order.append(('loop2', None, i, cc, op))
        if any(o[0] == 'loop2' and contains(real(o[4][1]), i) for o in order): raise Unsupported('nested mapping updates')
        cell.P = lambda t: SMap(init.ops + tuple((o[0], t) + o[2:] if o[0] != 'loop2' else self.pair_loop(t, i, o[3], o[4]) for o in order))

    def check_map_reads(self, cell, per, n, i, cond):
        """A key that was looked up among the entries present before the loop is not written by an earlier iteration."""
        for r in self.prev_reads:
            if r[0] != ('map', cell.key): continue
            key, pc = r[1], r[3]
            j = self.idx('j')
            for c, ops in per:
                for op in ops:
                    kb = subst(self.op_key(op), [(i, j)])
                    g = And(j >= 0, j < i, i < n, cond(j), subst(c, [(i, j)]))
                    if op[0] in ('loop', 'ldel'):
                        u = self.idx('u')
                        kb = subst(kb, [(op[2], u)])
                        g = And(g, u >= 0, u < subst(op[1], [(i, j)]), subst(op[3], [(i, j), (op[2], u)]))
                    elif op[0] not in ('set', 'del'): raise Unsupported('lookup in a mapping under construction')
                    ne = Not(self.truth(self.eq(key, kb)))
                    if ne is True: continue
                    if not self.valid(Implies(And(g, *[x for x in pc if isz(x)]), ne)): raise Unsupported('lookup of an entry made by an earlier iteration')

    def op_key(self, op):
        return op[4] if op[0] in ('loop', 'ldel') else op[1]

    def solve_family(self, cell, normal, n, i, cond, h0):
        k = cell.key[0]
        r0 = h0[k]
        ups = []
        for p in normal:
            r = p.heap[k]
            extra = [o for o in r.over if o not in r0.over]
            if len(extra) > 1 or r.f is not r0.f and any(not same(r.f.get(x), r0.f.get(x)) for x in set(r.f) | set(r0.f)):
                raise Unsupported('irregular update of loop-created objects')
            if extra:
                ix, rr = extra[0]
                if len(ix) != len(r0.ivars): raise Unsupported('family index')
                pos = [q for q, t in enumerate(ix) if t.eq(i)]
                if len(pos) != 1 or any(not t.eq(r0.ivars[q]) for q, t in enumerate(ix) if q != pos[0]):
                    raise Unsupported('family index')
                ups.append((self.decs(p), pos[0], rr))
        if r0.over: raise Unsupported('family overrides')
        if len({u[1] for u in ups}) > 1: raise Unsupported('family index')
        def P(t):
            iv = r0.ivars[ups[0][1]]
            f = dict(r0.f)
            for c, pos, rr in ups:
                g = And(iv >= 0, iv < t, subst(cond(i), [(i, iv)]), subst(c, [(i, iv)]))
                for fld in set(rr.f) | set(r0.f):
                    nv = subst(rr.f.get(fld, MISSING), [(i, iv)])
                    f[fld] = ite_container(g, nv, f.get(fld, MISSING))
            return Rec(r0.kind, r0.cls, f, r0.ivars, (), r0.tag)
        cell.P = P

    def find_invariant(self, tag, n):
        """Loop invariant supplied by the contract of the enclosing function, keyed by (function, variable)."""
        if tag is None: return None
        node, fr = tag
        clo, _ = self.rec(fr).tag
        invs = getattr(self, 'invariants', {}).get(clo.name)
        if not invs: return None
        r = self.rec(fr)
        by_id = {}
        for var, P in invs.items():
            v = r.f.get(var)
            if isinstance(v, H): by_id[v.id] = P
        if '*' in invs:
            # the invariant of whichever local mapping satisfies it initially
            for var, v in r.f.items():
                if not isinstance(v, H) or v.id in by_id or v.idx: continue
                rr = self.rec(v)
                if rr.kind == 'dict' and isinstance(rr.f.get('$c'), SMap) and rr.f['$c'].ops and self.inv_eq(None, rr.f['$c'], invs['*'](z3.IntVal(0))): by_id[v.id] = invs['*']
        if not by_id: return None
        def inv(key, rec, init):
            k, f = key
            if f == '$c' and k in by_id: return by_id[k]
            return None
        return inv


def ite_container(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isinstance(a, SMap) and isinstance(b, SMap):
        # b extended by guarded operations
        if len(a.ops) >= len(b.ops) and all(x is y or same(tuple(x), tuple(y)) for x, y in zip(a.ops, b.ops)):
            ops = list(b.ops)
            for op in a.ops[len(b.ops):]:
                if op[0] == 'set': ops.append(('loop', z3.IntVal(1), z3.FreshInt('u'), c, op[1], op[2]))
                else: raise Unsupported('guarded mapping update')
            return SMap(ops)
        raise Unsupported('conditional mapping')
    if isinstance(a, SSeq) or isinstance(b, SSeq): raise Unsupported('conditional list content')
    if type(a) is STensor and type(b) is STensor and len(a.axes) == len(b.axes) and all(same(x.n, y.n) and same(x.key, y.key) for x, y in zip(a.axes, b.axes)):
        return STensor(b.axes, b.ivars, ite(c, subst(a.body, list(zip(a.ivars, b.ivars))), b.body))
    return ite(c, a, b)


def uses_fn(v, f):
    """Does function f occur in v?"""
    hit = []
    def g(x):
        if isinstance(x, z3.ExprRef):
            seen, st = set(), [x]
            while st:
                y = st.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_quantifier(y): st.append(y.body()); continue
                if z3.is_app(y) and y.decl().eq(f): hit.append(y); return x
                st.extend(y.children())
            return x
        return None
    walk(v, g)
    return bool(hit)
