"""The ring of integers and nested lists of integers"""
from .unit import *


class IntMixin:
    def mpz(self, st, v, nm='z'):
        z = st.alloc(16, 'heap', nm)
        gmp.minit(self.ex, st, z)
        gmp.mset(self.ex, st, z, P(v))
        return z

    def holds(self, st, name, goal):
        if self.leak:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.canary:
            goal = z3.Not(goal)
        r = self.ex.check(st, [z3.Not(goal)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else ('refuted' if self.real(st) and 'M:' not in str(goal) else 'unknown') if r == z3.sat else 'unknown',
                '' if r == z3.unsat else str(z3.simplify(goal))[:200])
        self.canary_depth -= 1

    def ieq(self, st, name, got, want):
        """equality of integers"""
        if self.leak:
            return
        d = P(got) - P(want)
        if not self.canary and d.is_zero():
            self.ob(name, 'proved')
            return
        self.holds(st, name, to_z3(d) == 0)


class ZUnit(IntMixin, Unit):
    name = 'ring of integers'

    def setup(self):
        st = State()
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_z', K))
        return st, K

    def elem(self, st, K, v, nm='e'):
        e = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.api(st, 'init', e, K))
        st, _ = self.one(self.api(st, 'set_mpz', e, self.mpz(st, v)))
        return st, e

    def read(self, st, e):
        z = self.mpz(st, 0)
        s, _ = self.one(self.ex.run_fn(st.fork(), FnPtr('v_to_mpz'), [z, e]))
        return gmp.mget(self.ex, s, z)

    def do(self, op, alias):
        st, K = self.setup()
        n = max(alias) + 1
        vals = [Poly.var("abc"[i]) for i in range(n)]
        es = []
        for v in vals:
            st, e = self.elem(st, K, v)
            es.append(e)
        args = [es[i] for i in alias]
        ins = [vals[i] for i in alias[1:]]
        extra, want = [], None
        k = Poly.var('k')
        if op in ('mul_si', 'add_ui'):
            lo, hi = (-(1 << 63), (1 << 63) - 1) if op == 'mul_si' else (0, (1 << 64) - 1)
            self.ex.assume(st, z3.And(to_z3(k) >= lo, to_z3(k) <= hi))
            extra = [SI(64, k, lo, hi)]
        if op in ('mul_mpz',):
            extra = [self.mpz(st, k)]
        f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'square': lambda a: a * a, 'cubic': lambda a: a * a * a,
             'double': lambda a: a + a, 'neg': lambda a: -a, 'set': lambda a: a, 'mul_si': lambda a: a * k, 'mul_mpz': lambda a: a * k,
             'add_ui': lambda a: a + k}.get(op)
        for s, _ in self.api(st, op, *args, *extra):
            self.ieq(s, 'value', self.read(s, args[0]), f(*ins))
            for i in range(n):
                if i != alias[0]:
                    self.ieq(s, 'operand unchanged', self.read(s, es[i]), vals[i])
            if op == 'mul_mpz':
                self.ieq(s, 'scalar unchanged', gmp.mget(self.ex, s, extra[0]), k)

    def exact(self, op, same):
        """division by a divisor, halving an even number, inverting a unit"""
        st, K = self.setup()
        a, b = Poly.var('a'), Poly.var('b')
        if op == 'div':
            self.ex.assume(st, to_z3(b) != 0)
            st.data['exact'] = [a]
            st, x = self.elem(st, K, a * b)
            st, y = self.elem(st, K, b)
            r = x if same == 1 else y if same == 2 else None
            if r is None:
                st, r = self.elem(st, K, 7)
            rs = self.api(st, 'div', r, x, y)
            want = a
        elif op == 'halve':
            st, x = self.elem(st, K, a * 2)
            r = x
            if not same:
                st, r = self.elem(st, K, 7)
            rs = self.api(st, 'halve', r, x)
            want = a
        else:
            self.ex.assume(st, z3.Or(to_z3(a) == 1, to_z3(a) == -1))
            st, x = self.elem(st, K, a)
            r = x
            if not same:
                st, r = self.elem(st, K, 7)
            rs = self.api(st, 'invert', r, x)
            want = a
        for s, _ in rs:
            self.ieq(s, 'value', self.read(s, r), want)

    def pow(self, same, kind):
        st, K = self.setup()
        a, n = Poly.var('a'), Poly.var('n')
        self.ex.assume(st, to_z3(n) >= 0)
        if kind == 'small':
            self.ex.assume(st, to_z3(n) < 1 << 64)
        else:
            self.ex.assume(st, z3.And(to_z3(n) >= 1 << 64, z3.Or(to_z3(a) == 0, to_z3(a) == 1, to_z3(a) == -1)))
        want = gmp.ipow(self.ex, st, a, n)
        st, x = self.elem(st, K, a)
        r = x
        if not same:
            st, r = self.elem(st, K, 7)
        z = self.mpz(st, n)
        for s, _ in self.api(st, 'pow_mpz', r, x, z):
            if kind != 'small':
                # the parity of n is the parity of its last limb
                self.ex.divmod(s, n, P(2))
            self.ieq(s, 'value', self.read(s, r), want)
            self.ieq(s, 'exponent unchanged', gmp.mget(self.ex, s, z), n)
            if not same:
                self.ieq(s, 'operand unchanged', self.read(s, x), a)

    def nul(self, op):
        st, K = self.setup()
        st, x = self.elem(st, K, Poly.var('a'))
        k = Poly.var('k')
        extra = []
        want = P(0) if op == 'set0' else P(1)
        if op == 'set_si':
            self.ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < 1 << 63))
            extra, want = [SI(64, k, -(1 << 63), (1 << 63) - 1)], k
        if op == 'set_mpz':
            extra, want = [self.mpz(st, k)], k
        for s, _ in self.api(st, op, x, *extra):
            self.ieq(s, 'value', self.read(s, x), want)

    def pred(self, op):
        st, K = self.setup()
        a, b = Poly.var('a'), Poly.var('b')
        st, x = self.elem(st, K, a)
        st, y = self.elem(st, K, b)
        za, zb = to_z3(a), to_z3(b)
        if op == 'cmp':
            for s, r in self.api(st, 'cmp', x, y):
                v = to_z3(self.ex.as_s(s, r, 32))
                self.holds(s, 'sign of comparison', z3.And((v == 0) == (za == zb), (v < 0) == (za < zb)))
        elif op in ('sgn', 'sign'):
            for s, r in self.api(st, op, x):
                v = to_z3(self.ex.as_s(s, r, 32))
                self.holds(s, 'sign', z3.And((v == 0) == (za == 0), (v < 0) == (za < 0)))
        else:
            for s, r in self.api(st, op, x):
                self.truth(s, 'truth value', r, za == (0 if op == 'is0' else 1))

    def body(self):
        for op in ('add', 'sub', 'mul'):
            for al in ALIAS3:
                self.case("%s %s" % (op, alname(al)), self.do, op, al)
        for op in ('square', 'double', 'neg', 'set', 'mul_si', 'mul_mpz', 'add_ui'):
            for al in ALIAS2:
                self.case("%s %s" % (op, alname(al)), self.do, op, al)
        for op in ('div', 'halve', 'invert'):
            for same in (0, 1, 2) if op == 'div' else (0, 1):
                self.case("%s exact alias %d" % (op, same), self.exact, op, same)
        for same in (False, True):
            for kind in ('small', 'huge'):
                self.case("pow_mpz %s exponent, %s" % (kind, 'in place' if same else 'fresh'), self.pow, same, kind)
        for op in ('set0', 'set1', 'set_si', 'set_mpz'):
            self.case(op, self.nul, op)
        for op in ('cmp', 'sgn', 'sign', 'is0', 'is1'):
            self.case(op, self.pred, op)
        if self.leak:
            self.case('lifecycle', self.lifecycle)


INT = 'z'


def shape_name(s):
    return 'n' if s == INT else '[' + ','.join(shape_name(x) for x in s) + ']'


class MultizUnit(IntMixin, Unit):
    name = 'nested lists of integers'
    bounded = 'list shapes enumerated to depth 3 and length 3; the integers are arbitrary'
    SHAPES = [INT, (INT,), (INT, INT), ((INT, INT), INT), (INT, (INT,)), (INT, INT, INT), ((INT, (INT, INT)), (INT,))]

    def setup(self):
        st = State()
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_multiz', K))
        self.n = 0
        return st, K

    def build(self, st, K, sh, nm):
        """-> (state, element pointer whose data is owned by it, value tree)"""
        if sh == INT:
            e = st.alloc(ring.LAY.e_size, 'heap', nm)
            st, _ = self.one(self.api(st, 'init', e, K))
            self.n += 1
            v = Poly.var("%s%d" % (nm, self.n))
            st, _ = self.one(self.api(st, 'set_mpz', e, self.mpz(st, v)))
            return st, e, v
        lst = None
        vs = []
        for x in sh:
            st, c, v = self.build(st, K, x, nm)
            vs.append(v)
            if lst is None:
                st, lst = self.one(self.fn(st, 'multiz_new_list', c))
            else:
                st, _ = self.one(self.fn(st, 'multiz_append', lst, c))
            # the list owns the data now
            st.wobj(c.obj).freed = True
        return st, lst, tuple(vs)

    def tree(self, st, m, depth=0):
        if depth > 8:
            raise Unsupported("list too deep")
        st = st.fork()
        s, r = self.one(self.fn(st, 'multiz_is_z', m))
        if r:
            z = self.mpz(s, 0)
            s, _ = self.one(self.fn(s, 'multiz_to_mpz', z, m))
            return gmp.mget(self.ex, s, z)
        s, n = self.one(self.fn(s, 'multiz_count', m))
        return tuple(self.tree(s, self.one(self.fn(s, 'multiz_at', m, i))[1], depth + 1) for i in range(n))

    def read(self, st, e):
        return self.tree(st, ring.getcell(st, e, ring.LAY.e_data))

    def sem(self, t, d=0):
        """the multinomial a tree stands for"""
        if not isinstance(t, tuple):
            return P(t)
        r = P(0)
        for i, x in enumerate(t):
            r = r + self.sem(x, d + 1) * Poly.var('X%d' % d) ** i
        return r

    def shape_of(self, t):
        return tuple(self.shape_of(x) for x in t) if isinstance(t, tuple) else INT

    def same(self, st, name, got, want):
        if self.leak:
            return
        d = self.sem(got) - want + (1 if self.canary else 0)
        self.canary_depth += 1
        self.ob(name, 'proved' if d.is_zero() else 'refuted', '' if d.is_zero() else 'difference %r' % d)
        self.canary_depth -= 1

    def exactly(self, st, name, got, want):
        if self.leak:
            return
        ok = self.shape_of(got) == self.shape_of(want)
        self.ob(name + ' shape', 'proved' if ok else 'refuted', '' if ok else '%s for %s' % (shape_name(self.shape_of(got)), shape_name(self.shape_of(want))))
        self.same(st, name, got, self.sem(want))

    def bin(self, op, sa, sb, alias):
        st, K = self.setup()
        st, a, va = self.build(st, K, sa, 'a')
        if alias in ('b=a', 'all'):
            b, vb = a, va
        else:
            st, b, vb = self.build(st, K, sb, 'b')
        if alias == 'c=a' or alias == 'all':
            c = a
        elif alias == 'c=b':
            c = b
        else:
            st, c, vc = self.build(st, K, sb, 'c')
        x, y = self.sem(va), self.sem(vb)
        want = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        for s, _ in self.api(st, op, c, a, b):
            self.same(s, 'value', self.read(s, c), want)
            if c != a:
                self.exactly(s, 'operand unchanged', self.read(s, a), va)
            if c != b:
                self.exactly(s, 'operand unchanged', self.read(s, b), vb)

    def un(self, op, sa, same):
        st, K = self.setup()
        st, a, va = self.build(st, K, sa, 'a')
        c = a
        if not same:
            st, c, _ = self.build(st, K, (INT, INT), 'c')
        k = Poly.var('k')
        extra = []
        if op == 'mul_si':
            self.ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < 1 << 63))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
        if op == 'mul_mpz':
            extra = [self.mpz(st, k)]
        x = self.sem(va)
        want = {'set': x, 'neg': -x, 'double': x + x, 'square': x * x, 'mul_si': x * k, 'mul_mpz': x * k}[op]
        for s, _ in self.api(st, op, c, a, *extra):
            self.same(s, 'value', self.read(s, c), want)
            if not same:
                self.exactly(s, 'operand unchanged', self.read(s, a), va)
                # the copy shares nothing: it outlives the original
                for s2, _ in self.api(s, 'clear', a):
                    self.same(s2, 'value after the original is cleared', self.read(s2, c), want)
                    for s3, _ in self.api(s2, 'clear', c):
                        self.ob('cleared', 'proved')

    def cmp(self, sa, sb):
        st, K = self.setup()
        st, a, va = self.build(st, K, sa, 'a')
        st, b, vb = self.build(st, K, sb, 'b')
        d = self.sem(va) - self.sem(vb)
        # coefficient-wise equality
        cond = []
        Xs = {sym_id('X%d' % i) for i in range(6)}
        groups = {}
        for m, c in d.t.items():
            key = tuple((v, e) for v, e in m if v in Xs)
            rest = tuple((v, e) for v, e in m if v not in Xs)
            groups.setdefault(key, Poly())
            groups[key] = groups[key] + Poly({rest: c})
        eq = z3.And(*[to_z3(g) == 0 for g in groups.values()])
        for s, r in self.api(st, 'cmp', a, b):
            v = to_z3(self.ex.as_s(s, r, 32))
            self.holds(s, 'zero exactly for equal values', (v == 0) == eq)
            if sa == INT and sb == INT:
                self.holds(s, 'sign', (v < 0) == (to_z3(va) < to_z3(vb)))
            self.exactly(s, 'operand unchanged', self.read(s, a), va)

    def nul(self, op, sa):
        st, K = self.setup()
        st, a, va = self.build(st, K, sa, 'a')
        k = Poly.var('k')
        extra, want = [], {'set0': P(0), 'set1': P(1)}.get(op)
        if op == 'set_si':
            self.ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < 1 << 63))
            extra, want = [SI(64, k, -(1 << 63), (1 << 63) - 1)], k
        if op == 'set_mpz':
            extra, want = [self.mpz(st, k)], k
        for s, _ in self.api(st, op, a, *extra):
            self.same(s, 'value', self.read(s, a), want)

    def body(self):
        S = self.SHAPES
        pairs = [(x, y) for x in S for y in S]
        if self.tier == 'quick':
            pairs = [(x, y) for i, x in enumerate(S) for j, y in enumerate(S) if i < 5 and j < 5 or i == j]
        for op in ('add', 'sub', 'mul'):
            for sa, sb in pairs:
                if op == 'mul' and (sa == S[-1] and sb == S[-1]) and self.tier == 'quick':
                    continue
                self.case("%s %s %s" % (op, shape_name(sa), shape_name(sb)), self.bin, op, sa, sb, '')
            for al in ('c=a', 'c=b', 'b=a', 'all'):
                for sa, sb in ((INT, INT), (S[2], S[3]), (S[4], INT)):
                    self.case("%s %s %s %s" % (op, al, shape_name(sa), shape_name(sb)), self.bin, op, sa, sb, al)
        for op in ('set', 'neg', 'double', 'square', 'mul_si', 'mul_mpz'):
            for sa in S:
                if op == 'square' and sa == S[-1]:
                    continue
                for same in (False, True):
                    self.case("%s %s %s" % (op, shape_name(sa), 'in place' if same else 'fresh'), self.un, op, sa, same)
        for sa, sb in pairs:
            self.case("cmp %s %s" % (shape_name(sa), shape_name(sb)), self.cmp, sa, sb)
        for op in ('set0', 'set1', 'set_si', 'set_mpz'):
            for sa in S[:4]:
                self.case("%s over %s" % (op, shape_name(sa)), self.nul, op, sa)
