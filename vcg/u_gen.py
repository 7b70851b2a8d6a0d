"""Traces, curve orders and generated parameters (C17).

Primality is an uninterpreted predicate: what has to be shown is that the numbers handed out are the ones
that were tested and that they satisfy the equations of their family (polynomial identities over Z)."""
from .unit import *
from .loops import LoopInv, View
from .ir import IntT, PtrT


class TraceLoop(LoopInv):
    """c1 = T(i-1), c2 = T(i-2); T(0) = 2, T(1) = t, T(k) = t T(k-1) - q T(k-2)"""

    def havoc(self, L):
        a, b, i = Poly.fresh('Ta'), Poly.fresh('Tb'), Poly.fresh('i')
        L.st.data['trace'] = (a, b, i)
        for nm, v in (('c1', a), ('c2', b)):
            L.set_mpz(nm, v)
        L.set_int('i', i, 2, 1 << 31)
        L.assume(to_z3(i) <= to_z3(self.unit.n) + 1)

    def check(self, L, tag):
        u = self.unit
        q, t = u.q, u.t
        if tag == 'entry':
            u.ieq(L.st, 'T(1) on entry', L.mpz('c1'), t)
            u.ieq(L.st, 'T(0) on entry', L.mpz('c2'), P(2))
            u.ieq(L.st, 'counts from 2', L.int('i'), P(2))
            return
        a, b, i = L.st.data['trace']
        u.ieq(L.st, 'T(k) = t T(k-1) - q T(k-2)', L.mpz('c1'), t * a - q * b)
        u.ieq(L.st, 'T(k-1) kept', L.mpz('c2'), a)
        u.ieq(L.st, 'index grows by one', L.int('i'), i + 1)


class Free(LoopInv):
    """nothing about the state of the search is assumed"""
    def havoc(self, L): pass
    def check(self, L, tag): pass


class Split(LoopInv):
    """r cofac = n"""

    def havoc(self, L):
        r, c, p = Poly.fresh('rr'), Poly.fresh('cc'), Poly.fresh('pp')
        L.set_mpz('r', r)
        L.set_mpz('cofac', c)
        if self.outer:
            L.set_mpz('p', p)
            L.assume(to_z3(p) >= 2)
        L.st.zeros.append(r * c - L.mpz('n'))
        if not self.outer:
            # the loop is entered, and repeated, only when p divides r
            self.unit.divides(L.st, r, L.mpz('p'))

    outer = True

    def check(self, L, tag):
        u = self.unit
        u.eq(L.st, 'r cofac = n (%s)' % tag, L.mpz('r') * L.mpz('cofac'), L.mpz('n'))
        if not self.outer:
            u.divisor(L.st, 'divisor checked (%s)' % tag, L.mpz('r'), L.mpz('p'))


class Inner(Split):
    outer = False


class GenUnit(Unit):
    name = 'curve orders and parameter generation'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['__gmpz_probab_prime_p'] = self.c_prime
        C['__gmpz_setbit'] = self.c_setbit
        C['__gmpz_divisible_p'] = self.c_divisible
        C['__gmpz_nextprime'] = self.c_nextprime
        C['rand'] = self.c_rand
        C['__gmpz_fdiv_r_ui'] = self.c_fdiv_r_ui
        self.odivexact = C['__gmpz_divexact']
        C['__gmpz_divexact'] = self.c_divexact
        self.assumptions.add("mpz_probab_prime_p is the primality predicate; complex multiplication: a curve with the Hilbert root as j-invariant, or its twist, has q + 1 - t points when 4q - t^2 = D V^2")

    # ---- contracts
    def c_rand(self, ex, st, a):
        v = Poly.fresh('rand')
        ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) < 1 << 31))
        return SI(32, v, 0, (1 << 31) - 1)

    def c_prime(self, ex, st, a):
        v = gmp.mget(ex, st, a[0])
        b = Poly.fresh('prime')
        ex.assume(st, z3.And(to_z3(b) >= 0, to_z3(b) <= 2))
        st.data['primes'] = st.data.get('primes', []) + [(v, b)]
        return SI(32, b, 0, 2)

    def c_setbit(self, ex, st, a):
        v = gmp.mget(ex, st, a[0])
        if not v.is_zero():
            raise Unsupported("setbit of a nonzero number")
        gmp.mset(ex, st, a[0], self.two(ex, st, ex.as_u(st, a[1], 64)))

    def c_fdiv_r_ui(self, ex, st, a):
        r = ex.divmod(st, gmp.mget(ex, st, a[1]), P(ex.as_u(st, a[2], 64)))[1]
        gmp.mset(ex, st, a[0], r)
        return SI(64, r, 0, 1 << 63) if not r.is_const() else int(r.const_value())

    def two(self, ex, st, k):
        if k.is_const():
            return P(2) ** int(k.const_value())
        v = Poly.var('2^(%r)' % k)
        ex.assume(st, z3.And(to_z3(v) >= 1))
        return v

    def c_divisible(self, ex, st, a):
        r, p = gmp.mget(ex, st, a[0]), gmp.mget(ex, st, a[1])
        b = Poly.fresh('div')
        ex.assume(st, z3.And(to_z3(b) >= 0, to_z3(b) <= 1))
        st.data['divs'] = st.data.get('divs', []) + [(r, p, b)]
        return SI(32, b, 0, 1)

    def divides(self, st, r, p):
        st.data['divs'] = st.data.get('divs', []) + [(r, p, P(1))]

    def is_div(self, st, r, p):
        return any(r == x and p == y and self.ex.check(st, [to_z3(b) == 0]) == z3.unsat for x, y, b in st.data.get('divs', ()))

    def divisor(self, st, name, r, p):
        self.flag(name, self.is_div(st, r, p))

    def flag(self, name, ok, det='', bad='failed'):
        if self.leak:
            return
        if self.canary:
            ok = not ok
        self.canary_depth += 1
        self.ob(name, 'proved' if ok else bad, det)
        self.canary_depth -= 1

    def c_divexact(self, ex, st, a):
        r, p = gmp.mget(ex, st, a[1]), gmp.mget(ex, st, a[2])
        if self.is_div(st, r, p):
            q = Poly.fresh('quo')
            st.zeros.append(q * p - r)
            gmp.mset(ex, st, a[0], q)
            return
        return self.odivexact(ex, st, a)

    def c_nextprime(self, ex, st, a):
        v, o = Poly.fresh('np'), gmp.mget(ex, st, a[1])
        ex.assume(st, to_z3(v) > to_z3(o))
        gmp.mset(ex, st, a[0], v)

    # ---- helpers
    def mpz(self, st, v, nm='z'):
        z = st.alloc(16, 'heap', nm)
        gmp.minit(self.ex, st, z)
        gmp.mset(self.ex, st, z, P(v))
        return z

    def ieq(self, st, name, got, want):
        if self.leak:
            return
        if self.canary:
            want = P(want) + 1
        d = P(got) - P(want)
        self.canary_depth += 1
        if d.is_zero() or (not d.is_const() and self.ex.check(st, [to_z3(d) != 0]) == z3.unsat):
            self.ob(name, 'proved')
        else:
            r = self.ex.check(st, [to_z3(d) != 0])
            self.ob(name, 'failed' if r == z3.sat else 'unknown', 'difference %r' % d)
        self.canary_depth -= 1

    def prime(self, st, name, v):
        ok = any(ring.prove_zero(st, v - x) and self.ex.check(st, [to_z3(b) == 0]) == z3.unsat for x, b in st.data.get('primes', ()))
        self.flag(name + ' was tested prime', ok, repr(v)[:200])

    def goal(self, st, name, g):
        if self.leak:
            return
        if self.canary:
            g = z3.Not(g)
        r = self.ex.check(st, [z3.Not(g)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(g)[:200])
        self.canary_depth -= 1

    def divides_poly(self, name, a, b):
        q = P(b).exact_div(P(a), None)
        self.flag(name, q is not None and not P(a).is_const(), 'quotient not found')

    # ---- traces
    def trace(self, alias):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.q, self.t, self.n = Poly.var('q'), Poly.var('t'), Poly.var('n')
        ex.assume(st, z3.And(to_z3(self.n) >= 1, to_z3(self.n) < (1 << 31) - 1))
        q, t = self.mpz(st, self.q), self.mpz(st, self.t)
        r = {'none': None, 'trace': t, 'q': q}[alias] or self.mpz(st, Poly.var('old'))
        TraceLoop(self, 'pbc_mpz_trace_n', 0)
        h = heap(st, [q, t, r])
        for s, _ in self.fn(st, 'pbc_mpz_trace_n', r, q, t, SI(32, self.n, 1, (1 << 31) - 2)):
            if not self.path_ok(s):
                continue
            a, b, i = s.data['trace']
            self.goal(s, 'stops after n', to_z3(i) == to_z3(self.n) + 1)
            self.ieq(s, 'result is T(n)', gmp.mget(ex, s, r), a)
            if r is not t:
                self.ieq(s, 'trace unchanged', gmp.mget(ex, s, t), self.t)
            if r is not q:
                self.ieq(s, 'q unchanged', gmp.mget(ex, s, q), self.q)
            self.no_leak(s, h, None, 'pbc_mpz_trace_n')

    def extn(self, alias, k):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        Q, T = Poly.var('q'), Poly.var('t')
        q, t = self.mpz(st, Q), self.mpz(st, T)
        r = {'none': None, 'trace': t, 'q': q}[alias] or self.mpz(st, Poly.var('old'))
        h = heap(st, [q, t, r])
        for s, _ in self.fn(st, 'pbc_mpz_curve_order_extn', r, q, t, k):
            if not self.path_ok(s):
                continue
            T2, T1 = P(2), T
            for _ in range(2, k + 1):
                T2, T1 = T1, T * T1 - Q * T2
            self.ieq(s, '#E(F_q^%d) = q^%d + 1 - T(%d)' % (k, k, k), gmp.mget(ex, s, r), Q ** k + 1 - T1)
            if r is not t:
                self.ieq(s, 'trace unchanged', gmp.mget(ex, s, t), T)
            if r is not q:
                self.ieq(s, 'q unchanged', gmp.mget(ex, s, q), Q)
            self.no_leak(s, h, None, 'pbc_mpz_curve_order_extn')

    # ---- type A, A1
    def param(self, st, mod):
        o = modules()[mod].struct_offsets('pbc_param_s')
        self.mod = modules()[mod]
        par = st.alloc(max(o.values()) + 8, 'heap', 'par')
        return par, o

    def solinas(self, s, d, o, names):
        ex = self.ex
        g = lambda nm: gmp.mget(ex, s, Ptr(d.obj, o[nm]))
        i = lambda nm: ex.as_s(s, ex.load(s, Ptr(d.obj, o[nm]), IntT(32), self.mod), 32)
        e2, e1, s1, s0 = (i(nm) for nm in ('exp2', 'exp1', 'sign1', 'sign0'))
        self.goal(s, 'sign1 is 1 or -1', z3.Or(to_z3(s1) == 1, to_z3(s1) == -1))
        self.goal(s, 'sign0 is 1 or -1', z3.Or(to_z3(s0) == 1, to_z3(s0) == -1))
        self.goal(s, '0 < exp1 < exp2', z3.And(to_z3(e1) > 0, to_z3(e1) < to_z3(e2)))
        self.ieq(s, 'r = 2^exp2 + sign1 2^exp1 + sign0', g('r'), self.two(ex, s, e2) + s1 * self.two(ex, s, e1) + s0)
        self.prime(s, 'r', g('r'))
        self.prime(s, 'q', g('q'))
        return g

    def sizes(self, st):
        rb, qb = Poly.var('rbits'), Poly.var('qbits')
        self.ex.assume(st, z3.And(to_z3(rb) >= 3, to_z3(rb) < 1 << 20, to_z3(qb) >= to_z3(rb), to_z3(qb) < 1 << 20))
        return SI(32, rb, 3, 1 << 20), SI(32, qb, 3, 1 << 20)

    def a_gen(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/a_param.c'
        par, po = self.param(st, mod)
        Free(self, 'pbc_param_init_a_gen', 0)
        rb, qb = self.sizes(st)
        o = modules()[mod].struct_offsets('a_param_ptr')
        for s, _ in self.fn(st, 'pbc_param_init_a_gen', par, rb, qb):
            if not self.path_ok(s):
                continue
            g = self.solinas(s, ring.getcell(s, par, po['data']), o, None)
            self.ieq(s, 'q + 1 = h r', g('q') + 1, g('h') * g('r'))
            self.flag('12 divides h', all(c % 12 == 0 for c in g('h').t.values()), repr(g('h')))

    def a1_gen(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/a_param.c'
        par, po = self.param(st, mod)
        N = Poly.var('order')
        ex.assume(st, to_z3(N) >= 3)
        n = self.mpz(st, N)
        o = modules()[mod].struct_offsets('a1_param_s')
        unit = self

        class A1(LoopInv):
            def data(self, L): return ring.getcell(L.st, par, po['data'])

            def havoc(self, L):
                m = Poly.fresh('m')
                L.assume(z3.And(to_z3(m) >= 1, to_z3(m) < 1 << 28))
                L.set_int('l', m * 4, 4, 1 << 30)
                gmp.mset(L.ex, L.st, Ptr(self.data(L).obj, o['p']), m * 4 * N - 1)
                L.st.data['m'] = m

            def check(self, L, tag):
                l = L.int('l')
                p = gmp.mget(L.ex, L.st, Ptr(self.data(L).obj, o['p']))
                unit.ieq(L.st, 'p + 1 = l n (%s)' % tag, p + 1, l * N)
                if tag == 'entry':
                    unit.ieq(L.st, 'l starts at 4', l, P(4))
                else:
                    unit.ieq(L.st, 'l grows by 4', l, L.st.data['m'] * 4 + 4)
        A1(self, 'pbc_param_init_a1_gen', 0)
        h = heap(st, [par, n])
        for s, _ in self.fn(st, 'pbc_param_init_a1_gen', par, n):
            if not self.path_ok(s):
                continue
            d = ring.getcell(s, par, po['data'])
            g = lambda nm: gmp.mget(ex, s, Ptr(d.obj, o[nm]))
            l = ex.as_s(s, ex.load(s, Ptr(d.obj, o['l']), IntT(32), self.mod), 32)
            self.ieq(s, 'order kept', g('n'), N)
            self.ieq(s, 'p + 1 = l n', g('p') + 1, l * N)
            self.flag('4 divides l', all(c % 4 == 0 for c in l.t.values()), repr(l))
            self.prime(s, 'p', g('p'))
            self.no_leak(s, h, None, 'a1_gen')

    # ---- MNT and Freeman steps
    def step(self, fn, mul, res, k):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        u = Poly.var('u')
        ex.assume(st, to_z3(u) >= 0)
        U = self.mpz(st, u * mul + res)
        D = Poly.var('D')
        ex.assume(st, z3.And(to_z3(D) >= 1, to_z3(D) < 1 << 30))
        o = modules()['ecc/mnt.c'].struct_offsets('pbc_cm_s')
        called = []
        Split(self, fn, 0)
        Inner(self, fn, 1)
        sp = ex.loopspecs[fn]

        def cb(ex, s, a):
            called.append(1)
            cm = a[0]
            g = lambda nm: gmp.mget(ex, s, Ptr(cm.obj, cm.off + o[nm]))
            q, r, h, n = (g(x) for x in 'qrhn')
            self.prime(s, 'q', q)
            self.prime(s, 'r', r)
            self.eq(s, 'h r = n', h * r, n)
            cyc = q * q - q + 1 if k == 6 else q ** 4 - q ** 3 + q ** 2 - q + 1
            self.divides_poly('n divides Phi_%d(q)' % k, n, cyc)
            t = q + 1 - n
            UU = (u * mul + res) ** 2
            a3, c8 = (3, 8) if k == 6 else (15, 20)
            self.ieq(s, 'CM equation: %d (4q - t^2) = U^2 + %d' % (a3, c8), (q * 4 - t * t) * a3, UU + c8)
            self.ieq(s, 'embedding degree', ex.as_s(s, ex.load(s, Ptr(cm.obj, cm.off + o['k']), IntT(32), modules()['ecc/mnt.c']), 32), P(k))
            self.ieq(s, 'discriminant', ex.as_s(s, ex.load(s, Ptr(cm.obj, cm.off + o['D']), IntT(32), modules()['ecc/mnt.c']), 32), D)
            v = Poly.fresh('cbres')
            ex.assume(s, z3.And(to_z3(v) >= -(1 << 30), to_z3(v) < 1 << 30))
            s.data['cbres'] = v
            return SI(32, v, -(1 << 30), 1 << 30)
        ex.contracts['#cb'] = cb
        data = st.alloc(8, 'heap', 'data')
        h = heap(st, [U, data])
        n = 0
        for s, rv in self.fn(st, fn, FnPtr('#cb'), data, SI(32, D, 1, 1 << 30), U, mod='ecc/mnt.c'):
            n += 1
            if not self.path_ok(s):
                continue
            self.ieq(s, 'result is that of the callback, 0 if it was not called', ex.as_s(s, rv, 32), s.data.get('cbres', P(0)))
            self.ieq(s, 'solution unchanged', gmp.mget(ex, s, U), u * mul + res)
            self.no_leak(s, h, None, fn)
        want = res in ((1, 5) if k == 6 else (5, 10))
        self.flag('callback reached' if want else 'callback not reached', bool(called) == want)

    # ---- type E, F
    def e_gen(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/e_param.c'
        par, po = self.param(st, mod)
        Free(self, 'pbc_param_init_e_gen', 0)
        rb, qb = self.sizes(st)
        o = modules()[mod].struct_offsets('e_param_s')
        self.fields(ex)
        h = heap(st, [par])
        for s, _ in self.fn(st, 'pbc_param_init_e_gen', par, rb, qb):
            if not self.path_ok(s):
                continue
            g = self.solinas(s, ring.getcell(s, par, po['data']), o, None)
            q, r, hh = g('q'), g('r'), g('h')
            self.ieq(s, 'q - 1 = h r^2', q - 1, hh * r * r)
            self.flag('3 divides h', all(c % 3 == 0 for c in hh.t.values()), repr(hh))
            # h / 3 is a square, so 4 (q - 1) = 3 (2 r sqrt(h/3))^2 : trace 2, discriminant 3
            z = Poly({m: c // 3 for m, c in hh.t.items()})
            self.flag('h / 3 is a square', len(z.t) == 1 and all(e % 2 == 0 for m in z.t for v, e in m), repr(z))
            f = s.data.get('gen', {})
            self.ieq(s, 'field is F_q', f.get('q', P(0)), q)
            self.ieq(s, 'curve test uses the order q - 1', f.get('order', P(0)), q - 1)
            self.ieq(s, 'point was multiplied by the order', f.get('mul', P(0)), q - 1)
            t = f.get('twisted', False)
            self.goal(s, 'twisted exactly when the point has the wrong order', z3.BoolVal(t) != f['zero'] if 'zero' in f else z3.BoolVal(False))
            a, b = (self.zint(s, x) for x in ((f['a'], f['b']) if 'a' in f else (P(0), P(0))))
            self.ieq(s, 'a of the curve used', g('a'), a)
            self.ieq(s, 'b of the curve used', g('b'), b)
            self.ieq(s, 'fields released', P(f.get('live', 0)), P(0))
            self.no_leak(s, h, None, 'e_gen')

    def zint(self, s, v):
        k = ring.lookup(s, s.data.get('tompz', ()), ring.value_form(s, v))
        return k[0] if k else P(0)

    def gen(self, st, **k):
        g = dict(st.data.get('gen', {}))
        g.update(k)
        st.data['gen'] = g
        return g

    def fields(self, ex):
        C = ex.contracts
        unit = self

        class Point(ring.Base):
            def s_random(self, ex, st, n): ring.put(ex, st, n, Poly.fresh('pt'))

            def s_mul_mpz(self, ex, st, n, a, z):
                unit.gen(st, mul=gmp.mget(ex, st, z))
                ring.put(ex, st, n, Poly.fresh('pt'))

            def s_is0(self, ex, st, a):
                b = z3.Bool('zero!%d' % len(st.pc))
                unit.gen(st, zero=b)
                return ring.bool_result(ex, st, b)

        def init_fp(ex, st, a):
            D = ring.Base('Fq')
            ring.embed_field(st, a[0], D)
            unit.gen(st, q=gmp.mget(ex, st, a[1]), live=st.data.get('gen', {}).get('live', 0) + 1, fq=D)

        def init_curve(ex, st, a):
            D = Point('E')
            ring.embed_field(st, a[0], D)
            b = ring.get(ex, st, a[1])
            unit.gen(st, order=gmp.mget(ex, st, a[2]), a=P(0), b=b, live=st.data.get('gen', {}).get('live', 0) + 1)

        def twist(ex, st, a):
            v = Poly.fresh('nqr')
            g = st.data['gen']
            unit.gen(st, twisted=not g.get('twisted', False), a=g['a'] * v ** 2, b=g['b'] * v ** 3)

        def coeff(k):
            def f(ex, st, a):
                e = ring.new_elem(ex, st, st.data['gen']['fq'], st.data['gen'][k], 'snapshot')
                for i in (e.obj, ring.getcell_raw(st, e).obj):
                    st.wobj(i).kind = 'global'
                return e
            return f

        def clear(ex, st, a):
            unit.gen(st, live=st.data['gen']['live'] - 1)
            (st.wobj(a[0].obj).mpz or {}).pop(a[0].off + ring.LAY.off['order'], None)
        C['field_init_fp'] = init_fp
        C['field_init_curve_b'] = init_curve
        C['field_reinit_curve_twist'] = twist
        C['curve_field_a_coeff'] = coeff('a')
        C['curve_field_b_coeff'] = coeff('b')
        C['field_clear'] = clear

    def f_gen(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/f_param.c'
        par, po = self.param(st, mod)
        o = modules()[mod].struct_offsets('f_param_ptr')
        fn = 'pbc_param_init_f_gen'
        x = Poly.var('x')
        hit = []

        class Search(LoopInv):
            def havoc(self, L):
                L.set_mpz('x', x)
                L.assume(to_z3(x) >= 1)

            def check(self, L, tag):
                if tag == 'preserved':
                    unit.ieq(L.st, 'search goes on with the next number', L.mpz('x'), x + 1)
        unit = self
        Search(self, fn, 0)

        def stop(ex, s, a):
            hit.append(1)
            d = ring.getcell(s, par, po['data'])
            q, r = (gmp.mget(ex, s, Ptr(d.obj, d.off + o[nm])) for nm in 'qr')
            self.prime(s, 'q', q)
            self.prime(s, 'r', r)
            self.ieq(s, 'field is F_q', gmp.mget(ex, s, a[1]), q)
            t = q + 1 - r
            self.divides_poly('r divides Phi_12(q)', r, q ** 4 - q ** 2 + 1)
            y = (x * x * 6 + x * 4 + 1, x * x * 6 - x * 4 + 1)
            d = q * 4 - t * t
            self.flag('4q - t^2 is three times a square', any((d - v * v * 3).is_zero() for v in y), repr(d))
            return []
        ex.contracts['field_init_fp'] = stop
        b = Poly.var('bits')
        ex.assume(st, z3.And(to_z3(b) >= 10, to_z3(b) < 1 << 20))
        self.fn(st, fn, par, SI(32, b, 10, 1 << 20))
        ex.contracts.pop('field_init_fp')
        self.flag('search can end', bool(hit), bad='unknown')

    def search(self, fn, stepfn, mul, N, cnt):
        """every U handed on solves U^2 - mul D V^2 = N"""
        ex, st = self.ex, State()
        ex.loopspecs = {}
        o = modules()['ecc/mnt.c'].struct_offsets('pell_solution_s')
        D = Poly.var('D')
        ex.assume(st, z3.And(to_z3(D) >= 1, to_z3(D) < 1 << 28))
        unit = self
        calls = []
        C = ex.contracts

        def pell(ex, s, a):
            ps, d3 = a[0], gmp.mget(ex, s, a[1])
            unit.ieq(s, 'equation solved is x^2 - %d D y^2 = %d' % (mul, N), d3, D * mul)
            unit.ieq(s, 'right hand side', ex.as_s(s, a[2], 32), P(N))
            ring.setcell(s, ps, o['count'], cnt, 4)
            ok = unit.mpz(s, Poly.var('mx')), unit.mpz(s, Poly.var('my'))
            s.zeros.append(Poly.var('mx') ** 2 - D * mul * Poly.var('my') ** 2 - 1)
            for nm, z in zip(('minx', 'miny'), ok):
                gmp.minit(ex, s, Ptr(ps.obj, ps.off + o[nm]))
                gmp.mset(ex, s, Ptr(ps.obj, ps.off + o[nm]), gmp.mget(ex, s, z))
                s.wobj(z.obj).freed = True
                s.wobj(z.obj).mpz = {}
            for nm in 'xy':
                arr = s.alloc(16 * cnt, 'heap', 'pell ' + nm)
                for i in range(cnt):
                    gmp.minit(ex, s, Ptr(arr.obj, 16 * i))
                    gmp.mset(ex, s, Ptr(arr.obj, 16 * i), Poly.var('%s%d' % (nm, i)))
                ring.setcell(s, ps, o[nm], arr)
            for i in range(cnt):
                s.zeros.append(Poly.var('x%d' % i) ** 2 - D * mul * Poly.var('y%d' % i) ** 2 - N)
            s.data['ps'] = ps

        def arrs(s):
            ps = s.data['ps']
            return [ring.getcell(s, ps, o[nm]) for nm in 'xy']

        def holds(s, tag):
            x, y = arrs(s)
            for i in range(cnt):
                a, b = (gmp.mget(ex, s, Ptr(z.obj, 16 * i)) for z in (x, y))
                unit.eq(s, 'pair %d solves the equation (%s)' % (i, tag), a * a - D * mul * b * b, P(N))

        class Next(LoopInv):
            def havoc(self, L):
                x, y = arrs(L.st)
                for i in range(cnt):
                    a, b = Poly.fresh('X'), Poly.fresh('Y')
                    gmp.mset(ex, L.st, Ptr(x.obj, 16 * i), a)
                    gmp.mset(ex, L.st, Ptr(y.obj, 16 * i), b)
                    L.st.zeros.append(a ** 2 - D * mul * b ** 2 - N)

            def check(self, L, tag):
                holds(L.st, tag)

        def step(ex, s, a):
            calls.append(1)
            U = gmp.mget(ex, s, a[3])
            x, y = arrs(s)
            hit = [i for i in range(cnt) if a[3] == Ptr(x.obj, 16 * i)]
            if not hit:
                raise Unsupported("candidate is not one of the solutions")
            V = gmp.mget(ex, s, Ptr(y.obj, 16 * hit[0]))
            unit.eq(s, 'candidate solves the equation', U * U - D * mul * V * V, P(N))
            unit.ieq(s, 'discriminant handed on', ex.as_s(s, a[2], 32), D)
            v = Poly.fresh('res')
            ex.assume(s, z3.And(to_z3(v) >= -(1 << 30), to_z3(v) < 1 << 30))
            s.data['res'] = v
            return SI(32, v, -(1 << 30), 1 << 30)

        C['general_pell'] = pell
        C[stepfn] = step
        sq = z3.Bool('square')
        C['__gmpz_perfect_square_p'] = lambda ex, s, a: ring.bool_result(ex, s, sq)
        Next(self, fn, 0)
        data = st.alloc(8, 'heap', 'data')
        b = Poly.var('bitlimit')
        ex.assume(st, z3.And(to_z3(b) >= 10, to_z3(b) < 1 << 20))
        h = heap(st, [data])
        try:
            for s, rv in self.fn(st, fn, FnPtr('#cb'), data, SI(32, D, 1, 1 << 28), SI(32, b, 10, 1 << 20)):
                if not self.path_ok(s):
                    continue
                self.ieq(s, 'result is that of the last candidate', ex.as_s(s, rv, 32), s.data.get('res', P(0)))
                self.no_leak(s, h, None, fn)
            self.flag('candidates reached', bool(calls), bad='unknown')
        finally:
            for k in ('general_pell', stepfn, '__gmpz_perfect_square_p'):
                C.pop(k, None)

    def body(self):
        for al in ('none', 'trace', 'q'):
            self.case('trace over an extension, result is %s' % al, self.trace, al)
        for al in ('none', 'trace', 'q'):
            for k in (1, 2, 3, 5, 6, 12):
                self.case('order over F_q^%d, result is %s' % (k, al), self.extn, al, k)
        self.case('type A parameters', self.a_gen)
        self.case('type A1 parameters', self.a1_gen)
        self.case('type E parameters', self.e_gen)
        for k in ('field_init_fp', 'field_init_curve_b', 'field_reinit_curve_twist', 'curve_field_a_coeff', 'curve_field_b_coeff', 'field_clear'):
            self.ex.contracts.pop(k, None)
        if not self.leak:
            self.case('type F parameters', self.f_gen)
        for r in range(6):
            self.case('MNT candidate, U = %d mod 6' % r, self.step, 'mnt_step2', 6, r, 6)
        for c in (1, 2):
            self.case('MNT search, %d families' % c, self.search, 'pbc_cm_search_d', 'mnt_step2', 3, -8, c)
            self.case('Freeman search, %d families' % c, self.search, 'pbc_cm_search_g', 'freeman_step2', 15, -20, c)
        for r in (5, 10):
            self.case('Freeman candidate, U = %d mod 15' % r, self.step, 'freeman_step2', 15, r, 10)
