"""Normal forms of real-valued terms: Laurent polynomials over atoms, with indicators for conditionals
and finite sums of symbolic length as atoms.  Two terms with the same normal form are equal for all values
for which every denominator is non-zero (machine arithmetic is treated as exact)."""
from fractions import Fraction
from .vals import *


ONE = frozenset()


def skey(x):
    if isinstance(x, frozenset): return '{' + ','.join(sorted(skey(y) for y in x)) + '}'
    if isinstance(x, tuple): return '(' + ','.join(skey(y) for y in x) + ')'
    return repr(x)


def rename(x, old, new):
    if isinstance(x, frozenset): return frozenset(rename(y, old, new) for y in x)
    if isinstance(x, tuple): return tuple(rename(y, old, new) for y in x)
    if isinstance(x, str) and old in x:
        import re
        return re.sub(r'(?<![\w$])' + re.escape(old) + r'(?![\w])', lambda m: new, x)
    return x


def height(x):
    if isinstance(x, (frozenset, tuple)):
        h = 0
        for y in x: h = max(h, height(y))
        return h
    if isinstance(x, str) and '$b' in x:
        import re
        return max([int(k) for k in re.findall(r'\$b(\d+)', x)] or [0])
    return 0


class NF:
    """nf context: knows the sum symbols of an engine."""
    def __init__(self, E):
        self.E = E
        self.cache = {}

    # a polynomial is a dict {mono: Fraction}; a mono is a frozenset of (atom, exponent)
    def const(self, c):
        c = Fraction(c)
        return {ONE: c} if c else {}

    def one(self, atom, e=1):
        return {frozenset([(atom, e)]): Fraction(1)}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r

    def mulmono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            if a[0] == 'ind':
                d[a] = 1
            else:
                d[a] = d.get(a, 0) + e
                if d[a] == 0: del d[a]
        # contradictory / complementary indicators are handled by expanding negations, nothing to do here
        return frozenset(d.items())

    def mul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                for m, k in self.reduce(self.mulmono(m1, m2)).items():
                    v = r.get(m, 0) + c1 * c2 * k
                    if v: r[m] = v
                    else: r.pop(m, None)
        if len(r) > 4000: raise Unsupported('normal form too large')
        return r

    def reduce(self, mono):
        """sqrt(x)^2 = x"""
        for (a, e) in mono:
            if a[0] == 'app' and a[1] == 'sqrt' and abs(e) >= 2:
                rest = mono - {(a, e)}
                arg = self.unfreeze(a[2][0])
                h = abs(e) // 2
                p = {rest: Fraction(1)}
                q = self.pow(arg, h if e > 0 else -h)
                r = e - (2 * h if e > 0 else -2 * h)
                p = self.mul(p, q)
                if r: p = self.mul(p, self.one(a, r))
                return p
        return {mono: Fraction(1)}

    def pow(self, a, n):
        if n == 0: return self.const(1)
        if n < 0: return self.inv(self.pow(a, -n))
        r = a
        for _ in range(n - 1): r = self.mul(r, a)
        return r

    def inv(self, a):
        if len(a) == 1:
            (m, c), = a.items()
            if not any(x[0] == 'ind' for x, _ in m) and c != 0:
                return {frozenset((x, -e) for x, e in m): 1 / c}
        if not a: raise Unsupported('division by zero')
        # make the leading coefficient one
        items = sorted(a.items(), key=lambda kv: skey(kv[0]))
        c = items[0][1]
        b = {m: k / c for m, k in a.items()}
        return {frozenset([(('inv', self.freeze(b)), 1)]): 1 / c}

    def freeze(self, p):
        return frozenset(p.items())

    def unfreeze(self, f):
        return dict(f)

    # ---- terms
    def nf(self, t, depth=0):
        key = (t.get_id(), depth)
        if key in self.cache: return self.cache[key][1]
        r = self._nf(t, depth)
        self.cache[key] = (t, r)
        return r

    def _nf(self, t, depth):
        if z3.is_int_value(t): return self.const(t.as_long())
        if z3.is_rational_value(t): return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in ch: r = self.add(r, self.nf(c, depth))
                return r
            if k == z3.Z3_OP_SUB:
                r = self.nf(ch[0], depth)
                for c in ch[1:]: r = self.add(r, self.nf(c, depth), -1)
                return r
            if k == z3.Z3_OP_UMINUS: return self.add({}, self.nf(ch[0], depth), -1)
            if k == z3.Z3_OP_MUL:
                r = self.const(1)
                for c in ch: r = self.mul(r, self.nf(c, depth))
                return r
            if k == z3.Z3_OP_DIV:
                return self.mul(self.nf(ch[0], depth), self.inv(self.nf(ch[1], depth)))
            if k == z3.Z3_OP_POWER:
                e = ch[1]
                if z3.is_int_value(e) or (z3.is_rational_value(e) and e.denominator_as_long() == 1):
                    n = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
                    if abs(n) <= 12: return self.pow(self.nf(ch[0], depth), n)
            if k == z3.Z3_OP_TO_REAL: return self.nf(ch[0], depth)
            if k == z3.Z3_OP_ITE:
                c = self.ind(ch[0], depth)
                a, b = self.nf(ch[1], depth), self.nf(ch[2], depth)
                return self.add(self.add(self.mul(c, a), b), self.mul(c, b), -1)
            if k == z3.Z3_OP_UNINTERPRETED:
                for j, x in enumerate(ch):       # a conditional argument: f(if c then a else b) = [c] f(a) + (1 - [c]) f(b)
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                        c = self.ind(x.arg(0), depth)
                        a, b = [self.nf(t.decl()(*ch[:j], x.arg(q), *ch[j + 1:]), depth) for q in (1, 2)]
                        return self.add(self.add(self.mul(c, a), b), self.mul(c, b), -1)
                s = self.E.sums.get(t.decl().name())
                if s is not None:
                    return self.sum(s, ch, depth)
                if t.decl().name() in ('sqrt', 'log', 'exp', 'pow'):
                    args = tuple(self.freeze(self.nf(c, depth)) for c in ch)
                    return self.one(('app', t.decl().name(), args))
                return self.one(self.atom(t, depth))
        return self.one(('term', self.key(t, depth)))

    def atom(self, t, depth):
        return ('app', t.decl().name(), tuple(self.key(c, depth) for c in t.children()))

    def key(self, t, depth):
        """Canonical key of an index / object / real argument."""
        if z3.is_arith(t):
            return ('p', self.freeze(self.nf(t, depth)))
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return ('a', t.decl().name(), tuple(self.key(c, depth) for c in t.children()))
        return ('s', z3.simplify(t).sexpr())

    def ind(self, c, depth):
        """Polynomial of the indicator [c]."""
        if z3.is_true(c): return self.const(1)
        if z3.is_false(c): return {}
        k = c.decl().kind() if z3.is_app(c) else None
        if k == z3.Z3_OP_NOT: return self.add(self.const(1), self.ind(c.arg(0), depth), -1)
        if k == z3.Z3_OP_AND:
            r = self.const(1)
            for x in c.children(): r = self.mul(r, self.ind(x, depth))
            return r
        if k == z3.Z3_OP_OR:
            r = self.const(1)
            for x in c.children(): r = self.mul(r, self.add(self.const(1), self.ind(x, depth), -1))
            return self.add(self.const(1), r, -1)
        if k == z3.Z3_OP_ITE:
            a, b, d = [self.ind(x, depth) for x in c.children()]
            return self.add(self.add(self.mul(a, b), d), self.mul(a, d), -1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            isint = a.is_int() and b.is_int()
            p = self.add(self.nf(a, depth), self.nf(b, depth), -1)      # a - b
            if not p or list(p) == [ONE]:
                v = p.get(ONE, Fraction(0)) if p else Fraction(0)
                t = {z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0, z3.Z3_OP_DISTINCT: v != 0}[k]
                return self.const(1 if t else 0)
            neg = False
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                q = self.add({}, p, -1)
                at = self.one(('ind', ('eq', frozenset([self.freeze(p), self.freeze(q)]))))
                return at if k == z3.Z3_OP_EQ else self.add(self.const(1), at, -1)
            # everything as  p <= 0 (ints) or p <= 0 / not(p <= 0)
            if k == z3.Z3_OP_GE: p = self.add({}, p, -1)
            elif k == z3.Z3_OP_LT:
                if isint: p = self.add(p, self.const(1))
                else: p = self.add({}, p, -1); neg = True
            elif k == z3.Z3_OP_GT:
                if isint: p = self.add(self.add({}, p, -1), self.const(1))
                else: neg = True
            if isint:
                # canonical orientation: p <= 0  <=>  not(1 - p <= 0)
                q = self.add(self.const(1), p, -1)
                fp, fq = self.freeze(p), self.freeze(q)
                sc = sum(v for m, v in p.items() if m != ONE)
                if sc < 0 or (sc == 0 and skey(fq) < skey(fp)):
                    at = self.one(('ind', ('le', fq)))
                    return self.add(self.const(1), at, -1)
            at = self.one(('ind', ('le', self.freeze(p))))
            return self.add(self.const(1), at, -1) if neg else at
        if k == z3.Z3_OP_EQ:
            return self.one(('ind', ('eqo', frozenset(self.bkey(x, depth) for x in c.children()))))
        return self.one(('ind', self.bkey(c, depth)))

    def bkey(self, t, depth):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return ('a', t.decl().name(), tuple(self.key(c, depth) for c in t.children()))
        if z3.is_quantifier(t): return ('s', t.sexpr())
        return ('s', z3.simplify(t).sexpr())

    def sum(self, s, ch, depth):
        t, params = ch[0], ch[1:]
        nm = f'$t{depth}'
        b = z3.Int(nm)
        body = z3.substitute(s.body, (s.var, b), *zip(s.params, params))
        p = self.nf(body, depth + 1)
        tk = self.key(t, depth)
        r = {}
        tpoly = self.nf(t, depth)
        for m, c in p.items():
            inner = frozenset((a, e) for a, e in m if _mentions(a, nm))
            outer = m - inner
            if not inner:
                # a constant summand: t * c  (t >= 0 for every length in a proof)
                q = self.mul({outer: c}, tpoly)
            else:
                inner = rename(inner, nm, f'$b{height(inner) + 1}')
                q = self.mul({outer: c}, self.one(('sum', tk, inner)))
            r = self.add(r, q)
        return r

    def equal(self, a, b):
        try:
            return not self.add(self.nf(a), self.nf(b), -1)
        except Unsupported:
            return False


def _mentions(x, name):
    if isinstance(x, str): return x == name or (name in x and _tok(x, name))
    if isinstance(x, (tuple, frozenset)): return any(_mentions(y, name) for y in x)
    return False


def _tok(s, name):
    import re
    return re.search(r'(?<![\w$])' + re.escape(name) + r'(?![\w])', s) is not None
