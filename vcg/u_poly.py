"""The ring of polynomials over an abstract field: operands with up to three (division: four) coefficients"""
from .unit import *

MAXC = 3


def trim(v):
    v = [P(x) for x in v]
    while v and v[-1].is_zero():
        v.pop()
    return v


def padd(a, b, k=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else P(0)) + (P(k) * b[i] if i < len(b) else P(0)) for i in range(n)]


def pmul(a, b):
    r = [P(0)] * max(0, len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


class PolyRingUnit(Unit):
    name = 'polynomial ring'
    bounded = 'operands of up to %d coefficients (dividends: 4); the coefficients are arbitrary' % MAXC

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("base-field slots satisfy the abstract commutative-field contract, characteristic above 3")

    def setup(self):
        ex, st = self.ex, State()
        self.F = ring.Base('F')
        fp = ring.mk_field(ex, st, self.F)
        R = st.alloc(ring.LAY.size, 'heap', 'R')
        st, _ = self.one(self.fn(st, 'field_init_poly', R, fp))
        self.keep = (fp,)
        return st, R

    def new(self, st, R, nm, n):
        p = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.ex.run_fn(st, FnPtr('v_init'), [p, R]))
        if n:
            st, _ = self.one(self.fn(st, 'poly_set_coeff1', p, n - 1))
        v = [Poly.var('%s%d' % (nm, i)) for i in range(n)]
        for i in range(n):
            ring.put(self.ex, st, self.item(st, p, i), v[i])
        if n:
            st.nonzeros.append(v[-1])
        return st, p, v

    def item(self, st, p, i):
        return self.one(self.ex.run_fn(st, FnPtr('v_item'), [p, i]))[1]

    def read(self, st, p):
        c = self.one(self.ex.run_fn(st, FnPtr('v_item_count'), [p]))[1]
        c = c if isinstance(c, int) else self.ex.as_u(st, c, 32)
        c = c if isinstance(c, int) else c.const_value()
        return [ring.get(self.ex, st, self.item(st, p, i)) for i in range(int(c))]

    def is_poly(self, s, name, p, want):
        if self.leak:
            return
        got = self.read(s, p)
        for i in range(max(len(got), len(want), 1)):
            g = got[i] if i < len(got) else P(0)
            w = want[i] if i < len(want) else P(0)
            self.eq(s, '%s: coefficient %d' % (name, i), g, w)
        self.lead(s, name, got)

    def lead(self, s, name, got):
        if self.leak or not got:
            return
        c = ring.zero_cond(self.ex, s, got[-1])
        want = self.canary
        self.canary_depth += 1
        if isinstance(c, bool):
            st = 'proved' if c == want else 'refuted'
            d = 'the leading coefficient is zero'
        else:
            f = s.fork()
            feasible = ring.add_zero(f, got[-1])
            w = witness(f, P(1), seed=self.seed) if feasible else None
            st, d = ('refuted' if w is not None else 'unknown'), 'leading coefficient %s zero at %s' % (repr(got[-1])[:100], w)
        self.ob(name + ': no zero leading coefficient', st, '' if st == 'proved' else d)
        self.canary_depth -= 1

    def call(self, st, f, *args):
        h = heap(st, [a for a in args if isinstance(a, Ptr)])
        if f.startswith('poly_') or f.startswith('element_'):
            rs = self.fn(st, f, *args, mod='arith/poly.c')
        else:
            rs = self.ex.run_fn(st, FnPtr('v_' + f), list(args))
        for s, r in rs:
            if self.leak:
                self.no_leak(s, h, r, f)
            yield s, r

    def do(self, op, counts, alias):
        """counts: coefficients of each distinct object, alias: object of each argument"""
        st, R = self.setup()
        ex = self.ex
        es, vs = [], []
        for i, c in enumerate(counts):
            st, p, v = self.new(st, R, "abcd"[i], c)
            es.append(p)
            vs.append(v)
        args = [es[i] for i in alias]
        ins = [vs[i] for i in alias[1:]]
        extra = []
        k = Poly.var('k')
        if op in ('mul_si', 'set_si'):
            ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
        elif op in ('mul_mpz', 'set_mpz'):
            z = st.alloc(16, 'heap', 'z')
            gmp.minit(ex, st, z)
            gmp.mset(ex, st, z, k)
            extra = [z]
        elif op == 'poly_const_mul':
            extra = [ring.new_elem(ex, st, self.F, k, 'k')]
        want = {'add': lambda: padd(*ins), 'sub': lambda: padd(ins[0], ins[1], -1), 'mul': lambda: pmul(*ins), 'square': lambda: pmul(ins[0], ins[0]),
                'double': lambda: padd(ins[0], ins[0]), 'neg': lambda: padd([], ins[0], -1), 'set': lambda: ins[0],
                'mul_si': lambda: [k * x for x in ins[0]], 'mul_mpz': lambda: [k * x for x in ins[0]], 'poly_const_mul': lambda: [k * x for x in ins[0]],
                'set_si': lambda: [k], 'set_mpz': lambda: [k], 'set0': lambda: [], 'set1': lambda: [P(1)], 'poly_setx': lambda: [P(0), P(1)]}[op]()
        full = (args[0], extra[0], args[1]) if op == 'poly_const_mul' else (*args, *extra)
        for s, r in self.call(st, op, *full):
            self.path_ok(s)
            self.is_poly(s, 'value', args[0], want)
            for i in range(len(counts)):
                if i != alias[0]:
                    self.is_poly(s, 'operand unchanged', es[i], vs[i])

    def pred(self, op, ca, cb=None):
        st, R = self.setup()
        st, a, va = self.new(st, R, 'a', ca)
        args, vb = [a], []
        if op == 'cmp':
            st, b, vb = self.new(st, R, 'b', cb)
            args.append(b)
        elif op == 'is1':
            vb = [P(1)]
        for s, r in self.call(st, op, *args):
            self.path_ok(s)
            if self.leak:
                continue
            c = z3.And([z3.BoolVal(True)] + [x if not isinstance(x, bool) else z3.BoolVal(x) for x in (ring.zero_cond(self.ex, s, d) for d in padd(va, vb, -1))])
            self.truth(s, 'truth value', r, z3.Not(c) if op == 'cmp' else c)
            self.is_poly(s, 'operand unchanged', a, va)

    def coeff(self, op, ca, n):
        """one coefficient written"""
        st, R = self.setup()
        st, a, va = self.new(st, R, 'a', ca)
        k = Poly.var('k')
        args = [a, n]
        if op == 'poly_set_coeff':
            args = [a, ring.new_elem(self.ex, st, self.F, k, 'k'), n]
        new = {'poly_set_coeff': k, 'poly_set_coeff0': P(0), 'poly_set_coeff1': P(1)}[op]
        want = va + [P(0)] * (n + 1 - len(va))
        want[n] = new
        for s, r in self.call(st, op, *args):
            self.path_ok(s)
            self.is_poly(s, 'value', a, want)

    def division(self, ca, cb, alias):
        st, R = self.setup()
        st, a, va = self.new(st, R, 'a', ca)
        st, b, vb = self.new(st, R, 'b', cb)
        st, q, _ = self.new(st, R, 'c', 1)
        st, r, _ = self.new(st, R, 'd', 2)
        q, r = {'': (q, r), 'quotient over dividend': (a, r), 'remainder over dividend': (q, a), 'remainder over divisor': (q, b), 'quotient over divisor': (b, r)}[alias]
        for s, _ in self.call(st, 'poly_div', q, r, a, b):
            self.path_ok(s)
            if self.leak:
                continue
            vq, vr = self.read(s, q), self.read(s, r)
            got = padd(pmul(vq, vb), vr)
            for i in range(max(len(got), ca, 1)):
                self.eq(s, 'dividend = quotient * divisor + remainder, coefficient %d' % i, got[i] if i < len(got) else P(0), va[i] if i < ca else P(0))
            self.lead(s, 'quotient', vq)
            self.lead(s, 'remainder', vr)
            ok = (len(vr) < cb) != self.canary
            self.canary_depth += 1
            self.ob('the remainder is of smaller degree', 'proved' if ok else 'failed', '' if ok else '%d coefficients, divisor %d' % (len(vr), cb))
            self.canary_depth -= 1

    def monic(self, n, deg, same):
        st, R = self.setup()
        st, a, va = self.new(st, R, 'a', n)
        if deg is not None:
            for s, r in self.call(st, 'poly_random_monic', a, deg):
                self.path_ok(s)
                if self.leak:
                    continue
                got = self.read(s, a)
                self.eq(s, 'number of coefficients', P(len(got)), P(deg + 1))
                if got:
                    self.eq(s, 'leading coefficient', got[-1], P(1))
            return
        b = a
        if not same:
            st, b, _ = self.new(st, R, 'b', 2)
        for s, r in self.call(st, 'poly_make_monic', b, a):
            self.path_ok(s)
            if self.leak:
                continue
            got = self.read(s, b)
            self.lead(s, 'monic multiple', got)
            self.eq(s, 'number of coefficients', P(len(got)), P(n))
            for i in range(min(n, len(got))):
                self.eq(s, 'coefficient %d' % i, va[-1] * got[i], va[i])
            if not same:
                self.is_poly(s, 'operand unchanged', a, va)

    def constant(self, n):
        st, R = self.setup()
        st, a, va = self.new(st, R, 'a', n)
        k = Poly.var('k')
        c = ring.new_elem(self.ex, st, self.F, k, 'k')
        for s, r in self.call(st, 'element_field_to_poly', a, c):
            self.path_ok(s)
            self.is_poly(s, 'value', a, [k])

    def body(self):
        N = range(MAXC + 1)
        C = self.case
        for op in ('add', 'sub', 'mul'):
            for x in N:
                for y in N:
                    for d in (0, 2):
                        C('%s (c,a,b) %d %d %d' % (op, d, x, y), self.do, op, (d, x, y), (0, 1, 2))
                    C('%s (a,a,b) %d %d' % (op, x, y), self.do, op, (x, y), (0, 0, 1))
                    C('%s (a,b,a) %d %d' % (op, x, y), self.do, op, (x, y), (0, 1, 0))
                C('%s (b,a,a) %d' % (op, x), self.do, op, (1, x), (0, 1, 1))
                C('%s (a,a,a) %d' % (op, x), self.do, op, (x,), (0, 0, 0))
        for op in ('square', 'double', 'neg', 'set', 'mul_si', 'mul_mpz', 'poly_const_mul'):
            for x in N:
                for d in (0, 2):
                    C('%s (b,a) %d %d' % (op, d, x), self.do, op, (d, x), (0, 1))
                C('%s (a,a) %d' % (op, x), self.do, op, (x,), (0, 0))
        for op in ('set0', 'set1', 'set_si', 'set_mpz', 'poly_setx'):
            for x in N:
                C('%s %d' % (op, x), self.do, op, (x,), (0,))
        for x in N:
            C('is0 %d' % x, self.pred, 'is0', x)
            C('is1 %d' % x, self.pred, 'is1', x)
            for y in N:
                C('cmp %d %d' % (x, y), self.pred, 'cmp', x, y)
            for op in ('poly_set_coeff', 'poly_set_coeff0', 'poly_set_coeff1'):
                for n in N:
                    C('%s of %d at %d' % (op, x, n), self.coeff, op, x, n)
            C('constant over %d' % x, self.constant, x)
            for d in (0, 1, 3):
                C('poly_random_monic over %d degree %d' % (x, d), self.monic, x, d, False)
            C('monic multiple %d' % x, self.monic, x, None, False)
            C('monic multiple in place %d' % x, self.monic, x, None, True)
        for ca in range(5):
            for cb in range(1, 4):
                for al in ('', 'quotient over dividend', 'remainder over dividend', 'remainder over divisor', 'quotient over divisor'):
                    C('division %d by %d %s' % (ca, cb, al), self.division, ca, cb, al)


from .u_enc import RingEnc
from .u_print import TextMixin, NOTE


class PolyShape:
    """view of an operand of self.c coefficients for the mixins below"""
    c = 0
    prevs = (0, 2)

    def setup(self):
        st, R = super().setup()
        return st, R, None

    def view_new(self, st, K, nm, val=None):
        return self.new(st, K, nm, self.c)


class PolyRingEnc(PolyShape, RingEnc, PolyRingUnit):
    bounded = PolyRingUnit.bounded

    def __init__(self, fixed=True, **k):
        super().__init__(**k)
        self.fixed = fixed
        self.name = 'byte encoding of polynomials over a base of %s length' % ('fixed' if fixed else 'varying')
        self.assumptions.add("base encodings: equal elements alike, decoding inverts encoding")

    def setup(self):
        return self.with_base(lambda: PolyShape.setup(self))

    def trip(self, c, prev):
        self.c = c
        st, K, _ = self.setup()
        st, a, v = self.new(st, K, 'a', c)
        for s, n in self.api(st, 'length_in_bytes', a):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'to_bytes', b, a):
                self.inteq(s1, 'bytes written', self.num(s1, r), size)
                self.covered(s1, 'encoding', b, size, tuple(v))
                self.is_poly(s1, 'operand unchanged', a, v)
                q = a
                if prev is not None:
                    s1, q, _ = self.new(s1, K, 'b', prev)
                for s2, m in self.api(s1, 'from_bytes', q, b):
                    self.path_ok(s2)
                    self.inteq(s2, 'bytes read', self.num(s2, m), size)
                    self.is_poly(s2, 'decoded polynomial', q, v)

    def body(self):
        for c in range(MAXC + 1):
            for prev in (0, 2, None):
                self.case('round trip of %d coefficients over %s' % (c, prev), self.trip, c, prev)


class PolyRingText(PolyShape, TextMixin, PolyRingUnit):
    bounded = PolyRingUnit.bounded
    prevs = ()

    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'text of polynomials'
        self.assumptions.add(NOTE)
        self.printing()

    def setup(self):
        return self.with_base(lambda: PolyShape.setup(self))

    def same_read(self, s, what, p, v):
        self.is_poly(s, what, p, v)

    def shape(self, st, name, g, v, b):
        if v:
            return super().shape(st, name, g, v, b)
        toks = b''.join(c if isinstance(c, bytes) else b'?' for _, _, c in g.pieces)
        self.flag(name + ' lists the coordinates', toks.replace(b' ', b'') == b'[]', repr(toks)[:100])

    def body(self):
        for c in range(MAXC + 1):
            mk = lambda st, K, c=c: self.new(st, K, 'a', c)
            self.case('bounded printing of %d coefficients' % c, self.bounded_, mk)
            self.case('stream printing of %d coefficients' % c, self.streamed, mk)
