"""Solver interface: feasibility, obligations, finite sums of symbolic length."""
import time
from .vals import *
from .nf import NF


class SumDef:
    __slots__ = ('var', 'params', 'body', 'fn', 'rank', 'cond', 'axioms', 'selfn', 'selax')


class SolveMixin:
    def init_solve(self):
        self.sums, self.sumkey = {}, {}
        self.factset = set()
        self.frozen = set()
        self.nfc = NF(self)
        self.keep = []
        self.fcache = {}
        self.seed_cache = {}
        self.cur = ''
        self.failed_models = []
        self.backends = {}
        self.sels = {}
        self.prev_reads = []
        self.unsolved = []
        self.ax_by_fn = {}      # function name -> axioms

    # ------------------------------------------------------------------ sums
    def sum_term(self, t, var, cond, delta):
        """Sum of delta(var) over 0 <= var < t with cond(var)."""
        if cond is False: return z3.IntVal(0)
        d = real(delta)
        body = z3.simplify(d if cond is True else z3.If(cond, d, z3.IntVal(0) if d.is_int() else z3.RealVal(0)))
        if is_zero(body): return body
        t = z3.simplify(real(t))
        body = self.in_range(body, var, t)
        if is_zero(body): return body
        if z3.is_int_value(t) and t.as_long() <= 4:
            tot = z3.IntVal(0) if d.is_int() else z3.RealVal(0)
            for k in range(t.as_long()): tot = tot + z3.substitute(body, (var, z3.IntVal(k)))
            return z3.simplify(tot)
        if var.get_id() not in consts_in(body):
            return z3.simplify(body * t)
        r = self.unselect(t, var, body)
        if r is not None: return self.sum_term(*r)
        params = self.const_order(body, var)
        J = z3.Int('$J')
        canon = [z3.Const(f'$P{k}', p.sort()) for k, p in enumerate(params)]
        cb = z3.substitute(body, (var, J), *zip(params, canon))
        key = (cb.sexpr(), tuple(str(p.sort()) for p in params))
        s = self.sumkey.get(key)
        if s is None:
            s = SumDef()
            s.var, s.params, s.body = J, canon, cb
            s.fn = z3.Function(f'sum{len(self.sums)}', z3.IntSort(), *[p.sort() for p in params], d.sort())
            s.rank = d.is_int() and self.is_indicator(cb)
            s.selfn = None
            self.sums[s.fn.name()] = s
            self.sumkey[key] = s
            s.axioms = self.sum_axioms(s)
            self.keep.append(cb)
        return s.fn(t, *params)

    def unselect(self, t, var, body):
        """A sum over the selected places, as the sum over all places with the condition."""
        s = self.sums.get(t.decl().name()) if z3.is_app(t) else None
        if s is None or s.selfn is None: return None
        want = s.selfn(var, *t.children()[1:])
        u = self.idx('u')
        b = z3.substitute(body, (want, u))
        if contains(b, var): return None
        ind = z3.substitute(s.body, (s.var, u), *zip(s.params, t.children()[1:]))
        return t.arg(0), u, z3.simplify(ind == 1), b

    def is_indicator(self, b):
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE): return False
        x, y = b.arg(1), b.arg(2)
        return z3.is_int_value(x) and z3.is_int_value(y) and {x.as_long(), y.as_long()} <= {0, 1}

    def const_order(self, e, var):
        out, seen = [], set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stack.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(var) and not x.decl().name().startswith('$') and not x.decl().name().startswith('str:'):
                out.append(x)
            stack.extend(reversed(x.children()))
        return out

    def sum_axioms(self, s):
        ax = []
        a, b = z3.Int('$a'), z3.Int('$c')
        P = s.params
        zero = z3.IntVal(0) if s.fn.range() == z3.IntSort() else z3.RealVal(0)
        ax.append(z3.ForAll([a] + P, z3.Implies(a <= 0, s.fn(a, *P) == zero), patterns=[s.fn(a, *P)]))
        ba = z3.substitute(s.body, (s.var, a))
        step = z3.Implies(z3.And(0 <= a, b == a + 1), s.fn(b, *P) == s.fn(a, *P) + ba)
        if s.rank:
            ax.append(z3.ForAll([a] + P, z3.Implies(a >= 0, z3.And(s.fn(a, *P) >= 0, s.fn(a, *P) <= a)), patterns=[s.fn(a, *P)]))
            mono = z3.Implies(z3.And(0 <= a, a <= b), z3.And(s.fn(a, *P) <= s.fn(b, *P),
                              z3.Implies(a < b, s.fn(a, *P) + ba <= s.fn(b, *P))))
            ax.append(z3.ForAll([a, b] + P, z3.And(step, mono), patterns=[z3.MultiPattern(s.fn(a, *P), s.fn(b, *P))]))
        else:
            ax.append(z3.ForAll([a, b] + P, step, patterns=[z3.MultiPattern(s.fn(a, *P), s.fn(b, *P))]))
        return ax

    def count(self, n, var, cond):
        n = real(n)
        if cond is True: return n
        return self.sum_term(n, var, cond, z3.IntVal(1))

    def sel(self, n, var, cond, k):
        """Index of the k-th element satisfying cond."""
        if cond is True: return real(k)
        r = self.count(n, var, cond)
        s = self.sums.get(r.decl().name()) if z3.is_app(r) else None
        if s is None:
            raise Unsupported('selection')
        params = r.children()[1:]
        kk = z3.simplify(real(k))
        # sel(rank(t)) = t where cond(t)
        if z3.is_app(kk) and kk.num_args() and kk.decl().eq(s.fn) and all(x.eq(y) for x, y in zip(kk.children()[1:], params)):
            t = kk.arg(0)
            c = subst(cond, [(var, t)])
            if self.implied(And(t >= 0, c)): return t
        if s.selfn is None:
            f = z3.Function(s.fn.name() + '_sel', z3.IntSort(), *[p.sort() for p in params], z3.IntSort())
            s.selfn = f
            q, m = z3.Int('$q'), z3.Int('$m')
            P = s.params
            body = lambda x: z3.substitute(s.body, (s.var, x)) == 1
            e = f(q, *P)
            s.selax = [
                z3.ForAll([q, m] + P, z3.Implies(z3.And(q >= 0, m >= 0, q < s.fn(m, *P)),
                          z3.And(e >= 0, e < m, s.fn(e, *P) == q, body(e))), patterns=[z3.MultiPattern(e, s.fn(m, *P))]),
                z3.ForAll([m] + P, z3.Implies(z3.And(m >= 0, body(m)), f(s.fn(m, *P), *P) == m), patterns=[s.fn(m, *P)]),
            ]
            self.sels[f.name()] = s
            s.axioms = s.axioms + s.selax
            self.ax_by_fn[f.name()] = s.axioms
        return s.selfn(kk, *params)

    # ------------------------------------------------------------------ quantifiers
    def forall(self, i, f):
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        return z3.ForAll([i], f)

    def exists(self, i, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_false(f): return False
        return z3.Exists([i], f)

    def assume_fact(self, c):
        if c is True: return
        if c is False:
            raise self.dead()
        self.pc.append(c); self.factset.add(c.get_id()); self.keep.append(c)

    # ------------------------------------------------------------------ solver calls
    def fn_names(self, e, acc, seen):
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): stack.append(x.body()); continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(d.name())
                stack.extend(x.children())

    def support(self, fs):
        """Axioms needed for the formulas."""
        acc, seen, done, out = set(), set(), set(), []
        for f in fs: self.fn_names(f, acc, seen)
        work = list(acc)
        while work:
            nm = work.pop()
            if nm in done: continue
            done.add(nm)
            ax = []
            if nm in self.sums: ax = self.sums[nm].axioms
            elif nm in self.sels: ax = self.sels[nm].axioms
            if nm in self.ax_by_fn and nm not in self.sels: ax = list(ax) + self.ax_by_fn[nm]
            for x in ax:
                out.append(x)
                a2 = set(); self.fn_names(x, a2, seen)
                for y in a2:
                    if y not in done: work.append(y)
        lits = sorted(n for n in done if n.startswith('str:'))
        for a, b in zip(lits, lits[1:]):
            out.append(z3.Int(a) < z3.Int(b))
        return out

    def seeds(self, f):
        """Ground terms that occur in f under a quantifier only: told to the solver, which instantiates on terms it knows."""
        got = self.seed_cache.get(f.get_id())
        if got is not None: return got[1]
        ground, out, seen = {}, {}, set()
        def closed(e):
            k = e.get_id()
            if k not in ground:
                ground[k] = not z3.is_var(e) and not z3.is_quantifier(e) and all(closed(c) for c in e.children())
            return ground[k]
        def go(e, under):
            if (e.get_id(), under) in seen: return
            seen.add((e.get_id(), under))
            if z3.is_quantifier(e): return go(e.body(), True)
            if under and z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and closed(e):
                out[e.get_id()] = e
                return
            for c in e.children(): go(c, under)
        go(f, False)
        r = [z3.Function('known', e.sort(), z3.BoolSort())(e) for e in out.values()]
        self.seed_cache[f.get_id()] = (f, r)
        return r

    def check(self, extra, ms, mbqi=False):
        fs = [tobool(c) for c in self.pc] + [tobool(c) for c in extra]
        fs = fs + [x for f in fs for x in self.seeds(f)]
        fs = fs + [a for a in self.axioms]
        fs = fs + self.support(fs)
        key = (tuple(sorted(f.get_id() for f in fs)), mbqi)
        if key in self.fcache and self.fcache[key][1] >= ms:
            return self.fcache[key][0]
        s = z3.Solver()
        s.set('timeout', int(ms))
        if not mbqi:
            s.set('auto_config', False); s.set('smt.mbqi', False)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.tsolver += time.time() - t0
        self.nsolver += 1
        self.last_solver = s
        self.keep.extend(fs)
        self.fcache[key] = (r, ms if r == z3.unknown else 1e9)
        return r

    def feasible(self, c):
        return self.check([c], 250) != z3.unsat

    def feasible_strict(self):
        return self.check([], 300) != z3.unsat

    def feasible_long(self):
        return self.check([], self.timeout * 1000) != z3.unsat

    def implied(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check([z3.Not(c)], 400) == z3.unsat

    def valid(self, c, ms=None):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        r = self.check([z3.Not(c)], ms or self.timeout * 1000)
        if r == z3.unsat: return True
        return False

    def proves_eq(self, a, b):
        if a.eq(b): return True
        d = z3.simplify(a == b)
        if z3.is_true(d): return True
        if z3.is_false(d): return False
        return self.implied(a == b)

    def proves_neq(self, a, b):
        if a.eq(b): return False
        d = z3.simplify(a == b)
        if z3.is_true(d): return False
        if z3.is_false(d): return True
        return self.implied(a != b)

    # ------------------------------------------------------------------ equality goals
    def num_eq(self, a, b):
        """Goal formula stating a == b, already True when the normal forms agree."""
        a, b = real(a), real(b)
        if a.eq(b): return True
        if self.nfc.equal(a, b): return True
        a2, b2 = self.context_simplify(a), self.context_simplify(b)
        if (not a2.eq(a) or not b2.eq(b)) and self.nfc.equal(a2, b2): return True
        return a2 == b2

    def atoms(self, t):
        """Atomic conditions of the conditionals in t (outside quantifiers)."""
        out, seen = [], set()
        def boolean(c):
            if c.get_id() in seen: return
            seen.add(c.get_id())
            k = c.decl().kind() if z3.is_app(c) else None
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): [boolean(x) for x in c.children()]
            elif k == z3.Z3_OP_ITE or k in (z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES) and z3.is_bool(c.arg(0)): [boolean(x) for x in c.children()]
            else: out.append(c)
        stack, done = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in done: continue
            done.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE: boolean(x.arg(0))
                stack.extend(x.children())
        return [a for a in out if z3.is_app(a) and not z3.is_true(a) and not z3.is_false(a)]

    def in_range(self, body, var, t):
        """Drop the bounds on var that hold in a sum over 0 <= var < t."""
        pr = []
        for a in self.atoms(body)[:16]:
            if a.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or var.get_id() not in consts_in(a): continue
            g = z3.And(var >= 0, var < t)
            if self.implied(z3.Implies(g, a)): pr.append((a, z3.BoolVal(True)))
            elif self.implied(z3.Implies(g, z3.Not(a))): pr.append((a, z3.BoolVal(False)))
        return z3.simplify(z3.substitute(body, *pr)) if pr else body

    def context_simplify(self, t):
        """Resolve conditionals decided by the path condition."""
        pr = []
        for c in self.atoms(t)[:16]:
            if self.implied(c): pr.append((c, z3.BoolVal(True)))
            elif self.implied(z3.Not(c)): pr.append((c, z3.BoolVal(False)))
        return z3.simplify(z3.substitute(t, *pr)) if pr else t

    # ------------------------------------------------------------------ obligations
    def record(self, name, ok, how='path', secs=0.0, detail=''):
        from .engine import Obligation
        nm = (self.cur + ': ' if self.cur else '') + name
        self.obligations.append(Obligation(nm, bool(ok), how, secs, detail))
        return ok

    def prove(self, name, goal, quiet=False):
        t0 = time.time()
        how = 'evaluation'
        detail = ''
        if isinstance(goal, bool): ok = goal
        else:
            how = 'z3'
            g = z3.simplify(tobool(goal))
            if z3.is_true(g): ok, how = True, 'simplifier'
            else:
                r = self.check([z3.Not(g)], self.timeout * 1000)
                if r == z3.unknown: r = self.check([z3.Not(g)], self.timeout * 500, True)
                ok = r == z3.unsat
                self.last_result = r
                if not ok:
                    detail = f'{r}: {str(g)[:600]}\n{self.explain(g)}'
                    if r == z3.unknown:
                        ok = self.cvc5(g)
                        if ok: how, detail = 'cvc5', ''
                    elif r == z3.sat:
                        try:
                            detail += '\ncounterexample: ' + str(self.last_solver.model())[:1500]
                        except z3.Z3Exception: pass
        if not quiet: self.record(name, ok, how, time.time() - t0, detail)
        return ok

    def cvc5(self, g):
        """Second back end."""
        import subprocess, tempfile, os
        fs = [tobool(c) for c in self.pc] + [z3.Not(g)] + list(self.axioms)
        fs = fs + self.support(fs)
        s = z3.Solver(); s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        t0 = time.time()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(self.timeout * 1000), '-'], input=txt, capture_output=True, text=True, timeout=self.timeout * 2 + 5)
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            self.tsolver += time.time() - t0
            self.nsolver += 1

    def prove_num(self, name, a, b):
        t0 = time.time()
        g = self.num_eq(a, b)
        if g is True:
            self.record(name, True, 'normal form', time.time() - t0)
            return True
        return self.prove(name, g)

    def cover(self, name):
        """Reachability check: the current path must be satisfiable (vacuity guard)."""
        r = self.check([], self.timeout * 1000)
        self.covers[name] = self.covers.get(name, False) or (r != z3.unsat)
        return r != z3.unsat

    def explain(self, t):
        """Definitions of the sums in a term."""
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if z3.is_app(x):
                s = self.sums.get(x.decl().name())
                if s is not None and x.decl().name() not in seen:
                    seen.add(x.decl().name()); out.append(f'{x.decl().name()}(n; {s.params}) = sum {s.var}<n of {z3.simplify(s.body)}'); stack.append(s.body)
                stack.extend(x.children())
            elif z3.is_quantifier(x): stack.append(x.body())
        return '\n'.join(out)[:3000]
