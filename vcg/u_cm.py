"""Generated parameters of types D, G, E and F from the numbers on: the curve, its twist, the orders over the
extension, the irreducible polynomial and the nonresidue that are handed out (C17)."""
from .u_gen import *
from .u_gen import GenUnit, Free
from .poly import fresh_name


class UPoly(ring.Desc):
    """polynomials over a base: coefficients as elements"""

    def __init__(self, base, name):
        super().__init__('UPoly', name)
        self.base = base

    def new_data(self, st):
        p = st.alloc(8, 'heap', self.name + '-data')
        st.wobj(p.obj).ghost = ()
        return p

    def items(self, st, e):
        d = ring.getcell(st, e, ring.LAY.e_data)
        if st.objs[d.obj].freed:
            raise MemError("use of cleared element")
        return d, st.objs[d.obj].ghost

    def read(self, ex, st, d):
        return tuple(ring.get(ex, st, Ptr(i, 0)) for i in st.objs[d.obj].ghost)

    def free_data(self, st, d):
        for i in st.objs[d.obj].ghost:
            self.base.free_data(st, ring.getcell(st, Ptr(i, 0), ring.LAY.e_data))
            st.wobj(i).freed = True
        st.wobj(d.obj).freed = True

    def resize(self, ex, st, e, n):
        d, it = self.items(st, e)
        it = list(it)
        while len(it) < n:
            it.append(ring.new_elem(ex, st, self.base, self.base.zero(), 'coeff').obj)
        for i in it[n:]:
            self.base.free_data(st, ring.getcell(st, Ptr(i, 0), ring.LAY.e_data))
            st.wobj(i).freed = True
        st.wobj(d.obj).ghost = tuple(it[:n])
        return [Ptr(i, 0) for i in it[:n]]

    def s_item(self, ex, st, e, i):
        it = self.items(st, e)[1]
        if not isinstance(i, int):
            raise Unsupported("symbolic index")
        if i >= len(it):
            raise MemError("coefficient beyond the degree")
        return Ptr(it[i], 0)

    def s_item_count(self, ex, st, e):
        return len(self.items(st, e)[1])


class Pt(ring.Base):
    """points of a curve: which curve, and what was done to get them"""

    def note(self, st, v, what):
        t = dict(st.data.get('pts', {}))
        t[repr(v)] = what
        st.data['pts'] = t

    def s_random(self, ex, st, n):
        v = Poly.fresh('pt')
        ring.put(ex, st, n, v)
        self.note(st, v, ('random', st.data['curves'][self.name]))

    def s_mul_mpz(self, ex, st, n, a, z):
        v = Poly.fresh('pt')
        self.note(st, v, ('times', gmp.mget(ex, st, z), st.data.get('pts', {}).get(repr(ring.get(ex, st, a)))))
        ring.put(ex, st, n, v)

    def s_is0(self, ex, st, a):
        b = z3.Bool(fresh_name('zero'))
        w = st.data.get('pts', {}).get(repr(ring.get(ex, st, a)))
        st.data['tests'] = st.data.get('tests', ()) + ((w, b),)
        return ring.bool_result(ex, st, b)


class Ext(ring.PolyMod):
    def sqr_c(self, ex, st, v):
        b = z3.Bool(fresh_name('sq'))
        st.data['sqs'] = st.data.get('sqs', ()) + ((v, b),)
        return b


class Quad(ring.Pair):
    def s_random(self, ex, st, n): ring.put(ex, st, n, (Poly.fresh('rx'), Poly.fresh('ry')))


class Irr(Free):
    """polynomials made before the loop have room for their coefficients"""

    def havoc(self, L):
        st = L.st
        for ptr in st.data.get('live', ()):
            D = ring.fdesc(st, ptr)
            if not isinstance(D, UPoly):
                continue
            for i, o in list(st.objs.items()):
                if o.name == D.name + '-data' and not o.freed and o.ghost == ():
                    st.wobj(i).ghost = tuple(ring.new_elem(L.ex, st, D.base, Poly.fresh('c'), 'coeff').obj for _ in range(self.n + 1))


class CmUnit(GenUnit):
    name = 'curves, twists and extension data of generated parameters'
    NAMES = ('field_init_fp', 'field_init_poly', 'field_init_polymod', 'field_init_quadratic', 'field_init_curve_b', 'field_init_curve_j',
             'field_reinit_curve_twist', 'curve_field_a_coeff', 'curve_field_b_coeff', 'field_clear', 'field_get_nqr', 'pbc_hilbert', 'pbc_hilbert_free',
             'poly_set_coeff1', 'poly_findroot', 'poly_random_monic', 'poly_is_irred', 'pbc_mpz_trace_n')

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        for n in self.NAMES:
            C[n] = getattr(self, 'c_' + n)
        C['__gmpz_divexact'] = self.c_exact
        self.assumptions.add("poly_findroot, poly_is_irred and pbc_hilbert compute what they are named for (pbc_hilbert and the polynomial arithmetic are run against reference values); "
                             "r^2 divides the number of points over the extension when r divides it over the base field and r - 1 is coprime to the embedding degree")

    # ---- bookkeeping
    def desc(self, ex, st, ptr, D):
        ring.embed_field(st, ptr, D)
        st.data['live'] = st.data.get('live', ()) + (ptr,)
        return D

    def nm(self, st, k):
        st.data['nm'] = st.data.get('nm', 0) + 1
        return '%s%d' % (k, st.data['nm'])

    def c_field_clear(self, ex, st, a):
        if a[0] not in st.data.get('live', ()):
            raise MemError("field_clear of a field that is not initialised")
        st.data['live'] = tuple(p for p in st.data['live'] if p != a[0])
        (st.wobj(a[0].obj).mpz or {}).pop(a[0].off + ring.LAY.off['order'], None)

    def c_field_init_fp(self, ex, st, a):
        D = self.desc(ex, st, a[0], ring.Base(self.nm(st, 'Fq')))
        st.data['chars'] = {**st.data.get('chars', {}), D.name: gmp.mget(ex, st, a[1])}

    def c_field_init_poly(self, ex, st, a):
        self.desc(ex, st, a[0], UPoly(ring.fdesc(st, a[1]), self.nm(st, 'R')))

    def c_field_init_polymod(self, ex, st, a):
        D = ring.edesc(st, a[1])
        v = ring.get(ex, st, a[1])
        if not isinstance(D, UPoly) or v[-1] != P(1):
            raise Unsupported("modulus is not a monic polynomial")
        st.data['modulus'] = v
        self.desc(ex, st, a[0], Ext(D.base, v[:-1], self.nm(st, 'Fqd')))

    def c_field_init_quadratic(self, ex, st, a):
        B = ring.fdesc(st, a[1])
        self.desc(ex, st, a[0], Quad(B, Poly.var('nqr_' + B.name), self.nm(st, 'Fq2')))

    def c_field_get_nqr(self, ex, st, a):
        B = ring.fdesc(st, a[0])
        e = ring.new_elem(ex, st, B, Poly.var('nqr_' + B.name), 'snapshot')
        for i in (e.obj, ring.getcell_raw(st, e).obj):
            st.wobj(i).kind = 'global'
        return e

    def curve(self, ex, st, ptr, **k):
        D = self.desc(ex, st, ptr, Pt(self.nm(st, 'E')))
        st.data['curves'] = {**st.data.get('curves', {}), D.name: dict(k, twisted=False)}

    def c_field_init_curve_b(self, ex, st, a):
        self.curve(ex, st, a[0], a=P(0), b=ring.get(ex, st, a[1]), over=ring.edesc(st, a[1]), order=gmp.mget(ex, st, a[2]))

    def c_field_init_curve_j(self, ex, st, a):
        self.curve(ex, st, a[0], a=Poly.fresh('ca'), b=Poly.fresh('cb'), j=ring.get(ex, st, a[1]), over=ring.edesc(st, a[1]), order=gmp.mget(ex, st, a[2]))

    def cdata(self, st, p):
        return st.data['curves'][ring.fdesc(st, p).name]

    def c_field_reinit_curve_twist(self, ex, st, a):
        v = Poly.fresh('nq')
        g = self.cdata(st, a[0])
        n = dict(g, a=g['a'] * v ** 2, b=g['b'] * v ** 3, twisted=not g['twisted'])
        st.data['curves'] = {**st.data['curves'], ring.fdesc(st, a[0]).name: n}

    def coeff(self, ex, st, f, k):
        g = self.cdata(st, f)
        e = ring.new_elem(ex, st, g['over'], g[k], 'snapshot')
        for i in (e.obj, ring.getcell_raw(st, e).obj):
            st.wobj(i).kind = 'global'
        return e

    def c_curve_field_a_coeff(self, ex, st, a): return self.coeff(ex, st, a[0], 'a')
    def c_curve_field_b_coeff(self, ex, st, a): return self.coeff(ex, st, a[0], 'b')

    def c_pbc_hilbert(self, ex, st, a):
        st.data['hilbert'] = ex.as_s(st, a[1], 32)
        n = self.deg + 1
        arr = st.alloc(16 * n, 'heap', 'class polynomial')
        for i in range(n):
            gmp.minit(ex, st, Ptr(arr.obj, 16 * i))
            gmp.mset(ex, st, Ptr(arr.obj, 16 * i), Poly.var('h%d' % i) if i < n - 1 else P(1))
        ex.store(st, a[0], PtrT(), arr, modules()['ecc/d_param.c'])
        return n

    def c_pbc_hilbert_free(self, ex, st, a):
        o = st.wobj(a[0].obj)
        if o.freed:
            raise MemError("coefficients released twice")
        n = ex.as_u(st, a[1], 64)
        self.flag('all coefficients released', n == P(self.deg + 1), repr(n))
        o.freed = True
        o.mpz = {}

    def c_poly_set_coeff1(self, ex, st, a):
        D = ring.edesc(st, a[0])
        n = ex.as_s(st, a[1], 32)
        if not n.is_const():
            raise Unsupported("symbolic degree")
        k = int(n.const_value())
        it = D.resize(ex, st, a[0], max(k + 1, D.s_item_count(ex, st, a[0])))
        ring.put(ex, st, it[k], D.base.one())

    def c_poly_random_monic(self, ex, st, a):
        D = ring.edesc(st, a[0])
        n = ex.as_s(st, a[1], 32)
        k = int(n.const_value())
        it = D.resize(ex, st, a[0], k + 1)
        for i in it[:k]:
            ring.put(ex, st, i, Poly.fresh('c'))
        ring.put(ex, st, it[k], D.base.one())

    def c_poly_is_irred(self, ex, st, a):
        b = z3.Bool(fresh_name('irred'))
        st.data['irr'] = st.data.get('irr', ()) + ((ring.get(ex, st, a[0]), b),)
        return ring.bool_result(ex, st, b)

    def c_poly_findroot(self, ex, st, a):
        D = ring.edesc(st, a[1])
        v = ring.get(ex, st, a[1])
        want = tuple(Poly.var('h%d' % i) for i in range(self.deg)) + (P(1),)
        self.flag('root of the class polynomial', v == want, repr(v)[:200])
        self.flag('root in the field of the coefficients', ring.edesc(st, a[0]) is D.base, '')
        st.data['root'] = Poly.fresh('j')
        ring.put(ex, st, a[0], st.data['root'])
        return 0

    def c_pbc_mpz_trace_n(self, ex, st, a):
        q, t = gmp.mget(ex, st, a[1]), gmp.mget(ex, st, a[2])
        n = ex.as_s(st, a[3], 32)
        if not n.is_const():
            raise Unsupported("symbolic extension degree")
        gmp.mset(ex, st, a[0], self.tr(q, t, int(n.const_value())))

    @staticmethod
    def tr(q, t, n):
        x, y = P(2), t
        for _ in range(n):
            x, y = y, t * y - q * x
        return x

    def c_exact(self, ex, st, a):
        x, d = gmp.mget(ex, st, a[1]), gmp.mget(ex, st, a[2])
        v = Poly.fresh('quo')
        st.data['quo'] = st.data.get('quo', ()) + ((v, x, d),)
        gmp.mset(ex, st, a[0], v)

    def quotient(self, s, name, v, x, d):
        hit = [(a, b) for w, a, b in s.data.get('quo', ()) if w == v]
        self.ieq(s, name + ': dividend', hit[0][0] if hit else P(0), x)
        self.ieq(s, name + ': divisor', hit[0][1] if hit else P(0), d)

    def truth(self, s, b, val):
        return self.ex.check(s, [b != z3.BoolVal(val)]) == z3.unsat

    def tested(self, s, tag, w, order, curve):
        """the point tested is `order` times a random point of the curve"""
        ok = w is not None and w[0] == 'times' and w[2] is not None and w[2][0] == 'random'
        self.flag(tag + ': tested point is a multiple of a random point', ok, repr(w)[:160])
        if ok:
            self.ieq(s, tag + ': multiplied by the order', w[1], order)
            self.flag(tag + ': point of the curve made', all(w[2][1].get(k) == curve.get(k) for k in ('a', 'b')), repr(w)[:200])

    def twist_rule(self, s, tag, order, made, final):
        ts = s.data.get('tests', ())
        self.flag(tag + ': the curve is tested', len(ts) >= 1)
        if ts:
            w, b = ts[-1]
            self.tested(s, tag, w, order, made)
            tw = final['twisted']
            self.goal(s, tag + ': twisted exactly when the point has the wrong order', b != z3.BoolVal(tw))

    # ---- D, G
    def dg(self, typ, deg):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.deg = deg
        mod = 'ecc/%s_param.c' % typ
        k = 6 if typ == 'd' else 10
        fn = 'pbc_param_init_%s_gen' % typ
        par, po = self.param(st, mod)
        M = modules()[mod]
        o = M.struct_offsets('%s_param_s' % typ) or M.struct_offsets('%s_param_ptr' % typ)
        co = M.struct_offsets('pbc_cm_s')
        cm = st.alloc(max(co.values()) + 64, 'heap', 'cm')
        q, r, h, D = (Poly.var(x) for x in 'qrhD')
        ex.assume(st, z3.And(to_z3(q) > 4, to_z3(r) > 1, to_z3(h) > 0, to_z3(D) > 0, to_z3(D) < 1 << 30))
        for nm, v in (('q', q), ('r', r), ('h', h), ('n', r * h)):
            gmp.minit(ex, st, Ptr(cm.obj, co[nm]))
            gmp.mset(ex, st, Ptr(cm.obj, co[nm]), v)
        ring.setcell(st, cm, co['k'], k, 4)
        ring.setcell(st, cm, co['D'], SI(32, D, 1, 1 << 30), 4)
        Irr(self, fn, 0).n = k // 2
        Free(self, fn, 1)
        h0 = heap(st, [par, cm])
        n = 0
        for s, _ in self.fn(st, fn, par, cm):
            if not self.path_ok(s):
                continue
            n += 1
            d = ring.getcell(s, par, po['data'])
            g = lambda nm: gmp.mget(ex, s, Ptr(d.obj, d.off + o[nm]))
            for nm, v in (('q', q), ('r', r), ('h', h), ('n', r * h)):
                self.ieq(s, '%s is that of the CM data' % nm, g(nm), v)
            if typ == 'd':
                self.ieq(s, 'k', ex.as_s(s, ex.load(s, Ptr(d.obj, d.off + o['k']), IntT(32), M), 32), P(k))
            self.ieq(s, 'class polynomial of the discriminant', s.data.get('hilbert', P(0)), D)
            cs = list(s.data.get('curves', {}).values())
            self.flag('one curve made', len(cs) == 1)
            if len(cs) != 1:
                continue
            c = cs[0]
            self.flag('j-invariant is the root found', c.get('j') is not None and c['j'] == s.data.get('root'))
            self.ieq(s, 'curve is made with order n', c['order'], r * h)
            self.ieq(s, 'curve is over F_q', s.data['chars'][c['over'].name], q)
            made = [w for w, b in s.data.get('tests', ())]
            m = made[-1][2][1] if made and made[-1] and made[-1][0] == 'times' and made[-1][2] else c
            self.twist_rule(s, 'twist', r * h, m, c)
            self.ieq(s, 'a is that of the curve chosen', g('a'), self.zint(s, c['a']))
            self.ieq(s, 'b is that of the curve chosen', g('b'), self.zint(s, c['b']))
            nk = q ** k + 1 - self.tr(q, q + 1 - r * h, k)
            self.ieq(s, 'nk = #E(F_q^%d)' % k, g('nk'), nk)
            self.quotient(s, 'hk = nk / r^2', g('hk'), nk, r * r)
            # the extension
            v = s.data.get('modulus', ())
            self.flag('degree of the extension', len(v) == k // 2 + 1)
            self.flag('polynomial was found irreducible', any(x == v and self.truth(s, b, True) for x, b in s.data.get('irr', ())), repr(v)[:100])
            arr = ring.getcell(s, d, o['coeff'])
            for i in range(k // 2):
                self.ieq(s, 'coeff%d is that of the polynomial' % i, gmp.mget(ex, s, Ptr(arr.obj, arr.off + 16 * i)), self.zint(s, v[i]) if len(v) > i else P(0))
            nq = [x for x, b in s.data.get('sqs', ()) if self.truth(s, b, False)]
            self.flag('a nonsquare of the base field was found', bool(nq) and all(y.is_zero() for y in nq[-1][1:]), repr(nq)[:100])
            self.ieq(s, 'nqr is the nonsquare', g('nqr'), self.zint(s, nq[-1][0]) if nq else P(0))
            self.ieq(s, 'fields released', P(len(s.data.get('live', ()))), P(0))
            self.no_leak(s, h0, None, fn)
        self.flag('parameters reached', n >= 1, bad='unknown')

    # ---- E (the test point)
    def e2(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/e_param.c'
        par, po = self.param(st, mod)
        Free(self, 'pbc_param_init_e_gen', 0)
        rb, qb = self.sizes(st)
        o = modules()[mod].struct_offsets('e_param_s')
        for s, _ in self.fn(st, 'pbc_param_init_e_gen', par, rb, qb):
            if not self.path_ok(s):
                continue
            d = ring.getcell(s, par, po['data'])
            g = lambda nm: gmp.mget(ex, s, Ptr(d.obj, d.off + o[nm]))
            c = list(s.data.get('curves', {}).values())
            self.flag('one curve made', len(c) == 1)
            if len(c) != 1:
                continue
            made = [w for w, b in s.data.get('tests', ())]
            m = made[-1][2][1] if made and made[-1] and made[-1][0] == 'times' and made[-1][2] else c[0]
            self.twist_rule(s, 'twist', g('q') - 1, m, c[0])

    # ---- F
    def f(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        mod = 'ecc/f_param.c'
        par, po = self.param(st, mod)
        o = modules()[mod].struct_offsets('f_param_ptr')
        fn = 'pbc_param_init_f_gen'
        x = Poly.var('x')

        class Search(LoopInv):
            def havoc(self, L):
                L.set_mpz('x', x)
                L.assume(to_z3(x) >= 1)

            def check(self, L, tag): pass

        class Clean(Free):
            def havoc(self, L):
                L.st.data['curves'], L.st.data['tests'] = {}, ()
                L.st.data['loop_live'] = L.st.data.get('live', ())

            def check(self, L, tag):
                if tag == 'preserved':
                    unit.flag('fields of the attempt released', L.st.data['live'] == L.st.data['loop_live'])
        unit = self
        Search(self, fn, 0)
        Clean(self, fn, 1)
        Free(self, fn, 2)
        b = Poly.var('bits')
        ex.assume(st, z3.And(to_z3(b) >= 10, to_z3(b) < 1 << 20))
        h0 = heap(st, [par])
        n = 0
        for s, _ in self.fn(st, fn, par, SI(32, b, 10, 1 << 20)):
            if not self.path_ok(s):
                continue
            n += 1
            d = ring.getcell(s, par, po['data'])
            g = lambda nm: gmp.mget(ex, s, Ptr(d.obj, d.off + o[nm]))
            q, r = g('q'), g('r')
            self.prime(s, 'q', q)
            self.prime(s, 'r', r)
            self.divides_poly('r divides Phi_12(q)', r, q ** 4 - q ** 2 + 1)
            cs = list(s.data.get('curves', {}).values())
            ts = s.data.get('tests', ())
            self.flag('curve and sextic twist made', len(cs) == 2 and len(ts) == 2, '%d curves, %d tests' % (len(cs), len(ts)))
            if len(cs) != 2 or len(ts) != 2:
                continue
            c, w = cs
            self.ieq(s, 'curve is over F_q', s.data['chars'].get(c['over'].name, P(0)), q)
            self.tested(s, 'curve', ts[0][0], r, c)
            self.flag('curve kept only when the point has order r', self.truth(s, ts[0][1], True))
            self.ieq(s, 'b is that of the curve', g('b'), self.zint(s, c['b']))
            B = w['over']
            self.flag('twist is over F_q^2', isinstance(B, Quad))
            self.ieq(s, 'beta is the nonresidue of F_q', g('beta'), self.zint(s, Poly.var('nqr_' + B.base.name)))
            irr = [v for v, bb in s.data.get('irr', ()) if self.truth(s, bb, True)]
            self.flag('polynomial was found irreducible', bool(irr))
            if not irr:
                continue
            v = irr[-1]
            self.flag('polynomial is x^6 + alpha', len(v) == 7 and all(B.base.zero() == y for t in v[1:6] for y in t) and v[6] == B.one(), repr(v)[:150])
            al = v[0]
            want = B.scal(-1, tuple(y * c['b'] for y in al))
            nb = w['b']
            bz = self.zint(s, c['b'])
            want2 = B.scal(-1, tuple(y * bz for y in al))
            for i in range(2):
                self.flag('twist has coefficient -alpha b (%d)' % i, nb[i] in (want[i], want2[i]), repr(nb)[:150])
            T = q + 1 - r
            n12 = q ** 12 + 1 - self.tr(q, T, 12)
            wt = ts[1][0]
            ok = wt is not None and wt[0] == 'times' and wt[2] is not None and wt[2][0] == 'random'
            self.flag('twist: tested point is a multiple of a random point', ok)
            if ok:
                self.flag('twist: point of the twist', wt[2][1]['b'] == w['b'])
                self.quotient(s, 'twist: n12 / r^2', wt[1], n12, r * r)
            if self.truth(s, ts[1][1], True):
                a2 = B.mul(al, al)
                fin = B.mul(B.mul(a2, a2), al)
            elif self.truth(s, ts[1][1], False):
                fin = al
            else:
                self.flag('outcome of the twist test is used', False)
                continue
            for i in range(2):
                self.ieq(s, 'alpha%d is that of the twist of order divisible by r' % i, g('alpha%d' % i), self.zint(s, fin[i]))
            self.ieq(s, 'fields released', P(len(s.data.get('live', ()))), P(0))
            self.no_leak(s, h0, None, fn)
        self.flag('parameters reached', n >= 1, bad='unknown')

    def body(self):
        for typ in 'dg':
            for deg in (1, 2, 3):
                self.case('type %s parameters, class number %d' % (typ.upper(), deg), self.dg, typ, deg)
        if not self.leak:
            self.case('type E test point', self.e2)
        self.case('type F curve and twist', self.f)


def products(e):
    seen, todo, sub = set(), [e], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n = x.decl().name() if z3.is_const(x) else ''
        if n.startswith('M:'):
            p = None
            for f in n[2:].split('*'):
                v, k = f.rsplit('^', 1)
                for _ in range(int(k)):
                    p = z3.Int(v) if p is None else p * z3.Int(v)
            sub.append((x, p))
        todo += x.children()
    return z3.substitute(e, *sub) if sub else e


class PellLoop(LoopInv):
    """continued fraction of sqrt(D): p0^2 - D q0^2 = d Q1 and the relations that make it last"""
    NM = ('P1', 'Q0', 'Q1', 'a1', 'p0', 'p1', 'q0', 'q1')

    def facts(self, v, d, D):
        return (('D = P^2 + Q\'Q', v['P1'] ** 2 + v['Q0'] * v['Q1'] - D),
                ('p^2 - D q^2 = d Q', v['p0'] ** 2 - D * v['q0'] ** 2 - v['Q1'] * d),
                ('mixed norm', v['p0'] * v['p1'] - D * v['q0'] * v['q1'] - (v['a1'] * v['Q1'] - v['P1']) * d),
                ('norm of the next convergent', v['p1'] ** 2 - D * v['q1'] ** 2 + (v['Q0'] + v['a1'] * v['P1'] * 2 - v['a1'] ** 2 * v['Q1']) * d))

    def ranges(self, v, a0):
        z = {k: to_z3(x) for k, x in v.items()}
        a = to_z3(a0)
        return (('0 < P <= a0', z3.And(z['P1'] >= 1, z['P1'] <= a)),
                ('Q > 0', z['Q1'] >= 1), ('Q <= a0 + P', z['Q1'] <= a + z['P1']), ('Q > a0 - P', z['Q1'] > a - z['P1']),
                ('a1 is the floor', z3.And(to_z3(v['a1'] * v['Q1']) <= a + z['P1'], a + z['P1'] < to_z3((v['a1'] + 1) * v['Q1']))))

    def vals(self, L):
        return {k: L.mpz(k) for k in self.NM}

    def havoc(self, L):
        u, st = self.unit, L.st
        v = {k: Poly.var('pell_' + k) for k in self.NM}
        for k, x in v.items():
            L.set_mpz(k, x)
        L.set_int('d', P(u.d0), u.d0, u.d0)
        for k, f in self.facts(v, u.d0, u.D):
            st.zeros.append(f)
            L.assume(to_z3(f) == 0)
        for k, f in self.ranges(v, L.mpz('a0')):
            L.assume(f)
        st.data['pell'] = v
        M = modules()['ecc/mnt.c']
        ls = L.ptr('listp'), L.ptr('listq')
        o = M.struct_offsets('darray_s')
        for p, nm in zip(ls, 'xy'):
            old = L.ex.load(st, Ptr(p.obj, p.off + o['item']), PtrT(), M)
            st.wobj(old.obj).freed = True
            arr = st.alloc(8 * max(u.cnt, 1), 'heap', 'items')
            for i in range(u.cnt):
                z = u.mpz(st, Poly.var('%s%d' % (nm, i)))
                L.ex.store(st, Ptr(arr.obj, 8 * i), PtrT(), z, M)
            ring.setcell(st, p, o['item'], arr)
            ring.setcell(st, p, o['count'], u.cnt, 4)
            ring.setcell(st, p, o['max'], max(u.cnt, 1), 4)
        for i in range(u.cnt):
            st.data['rules'] = list(st.data.get('rules', ())) + [(sym_id('x%d' % i), 2, u.D * Poly.var('y%d' % i) ** 2 + u.N)]
        st.data['lists'] = ls
        st.data['pend'] = ()

    def check(self, L, tag):
        u, st = self.unit, L.st
        v = self.vals(L)
        d = L.int('d')
        if not d.is_const():
            raise Unsupported("sign is symbolic")
        d = int(d.const_value())
        u.flag('sign is 1 or -1 (%s)' % tag, d in (1, -1))
        for k, f in self.facts(v, d, u.D):
            u.eq(st, '%s (%s)' % (k, tag), f, P(0))
        a0 = L.mpz('a0')
        hint = []
        if tag == 'preserved':
            w = st.data['pell']
            u.flag('sign alternates', d == -u.d0)
            u.flag('pairs are complete', not st.data['pend'])
            hint = [to_z3(w['a1']) >= 1]
        for k, f in self.ranges(v, a0):
            u.stepped(st, '%s (%s)' % (k, tag), f, hint)


class PellUnit(GenUnit):
    name = 'solutions of the Pell equation'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['__gmpz_sqrt'] = self.c_sqrt
        C['__gmpz_tdiv_q'] = self.c_tdiv
        C['__gmpz_divexact'] = self.c_exact
        C['darray_append'] = self.c_append
        self.assumptions.add("pbc_cm_search_d and pbc_cm_search_g call general_pell with a right hand side of -8 or -20 and a D that is not a square (proved at the calls); lists of 0 to 3 solutions")

    def c_sqrt(self, ex, st, a):
        v, D = Poly.var('a0'), gmp.mget(ex, st, a[1])
        ex.assume(st, z3.And(to_z3(v) >= 1, to_z3(v * v) < to_z3(D), to_z3(D) < to_z3((v + 1) * (v + 1))))
        gmp.mset(ex, st, a[0], v)

    def c_tdiv(self, ex, st, a):
        n, d = gmp.mget(ex, st, a[1]), gmp.mget(ex, st, a[2])
        if self.nia(st, z3.And(to_z3(n) >= 0, to_z3(d) >= 1)) != z3.unsat:
            raise Unsupported("[limit] division by a possible zero")
        v = Poly.fresh('fl')
        ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v * d) <= to_z3(n), to_z3(n) < to_z3(v * d + d)))
        gmp.mset(ex, st, a[0], v)

    def c_exact(self, ex, st, a):
        n, d = gmp.mget(ex, st, a[1]), gmp.mget(ex, st, a[2])
        w = st.data.get('pell')
        if w is None:
            raise Unsupported("division before the loop")
        q = w['Q0'] + w['a1'] * w['P1'] * 2 - w['a1'] ** 2 * w['Q1']
        self.eq(st, 'division is exact', n, d * q)
        # keep the quotient as a number of its own; facts a person would use
        v = Poly.fresh('Qn')
        st.zeros.append(v - q)
        P2 = w['a1'] * w['Q1'] - w['P1']
        D, a0, Q1, P1 = self.D, Poly.var('a0'), w['Q1'], w['P1']
        ex.assume(st, to_z3(v * Q1) == to_z3(D - P2 * P2))
        p, zv, zq, za, s = to_z3(P2), to_z3(v), to_z3(Q1), to_z3(a0), z3.Real('s')
        ex.assume(st, z3.And(s > z3.ToReal(za), s < z3.ToReal(za) + 1, s * s == z3.ToReal(to_z3(D)), s > 0))
        for name, f in (('a1 >= 1', to_z3(w['a1']) >= 1), ('P <= a0', p <= za), ('P > a0 - Q', p > za - zq), ('Q <= P + P\'', zq <= p + to_z3(P1)), ('P > 0', p >= 1)):
            self.lemma(st, name, f)
        # Q Q' = (s - P)(s + P) with s - P < Q < s + P
        R = z3.ToReal
        X, Y, S, Q, A = z3.Reals('X Y S Q A')
        lem = z3.Implies(z3.And(X * Q == (S - Y) * (S + Y), Q > S - Y, S - Y > 0, Q < S + Y, S + Y > 0, Q > 0), z3.And(X > 0, X < S + Y, X > S - Y))
        sv = z3.Solver()
        sv.set('timeout', 8000)
        sv.add(z3.Not(lem))
        self.flag('lemma on the size of the next Q', sv.check() == z3.unsat, bad='unknown')
        hyp = z3.And(R(zq) > s - R(p), s - R(p) > 0, R(zq) < s + R(p), s + R(p) > 0, zq > 0)
        if self.nia(st, hyp) == z3.unsat:
            ex.assume(st, z3.And(zv >= 1, R(zv) < s + R(p), R(zv) > s - R(p)))
        self.lemma(st, 'Q <= a0 + P next', zv <= za + p)
        self.lemma(st, 'Q > a0 - P next', zv > za - p)
        gmp.mset(ex, st, a[0], v)

    def nia(self, st, f, t=6000):
        # products are opaque in path conditions: first as they are, then multiplied out
        r = None
        if self.canary and self.canary_depth:
            t = 200
        elif self.canary:
            t = 1000
        for real in (False, True):
            s = z3.Solver()
            s.set('timeout', t)
            fs = list(st.pc) + [z3.Not(f)]
            s.add(*([products(x) for x in fs] if real else fs))
            r = s.check()
            if r == z3.unsat:
                break
        return r

    def lemma(self, st, name, f):
        r = self.nia(st, f)
        if r == z3.unsat:
            self.ex.assume(st, f)
        else:
            self.limits = True
        return r

    def stepped(self, st, name, f, hint=()):
        if self.leak:
            return
        if self.canary and self.nia(st, z3.BoolVal(False)) == z3.unsat:
            return      # no run takes this path
        g = z3.Not(f) if self.canary else f
        self.canary_depth += 1
        r = self.nia(st, g)
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else '[limit]')
        self.canary_depth -= 1

    def c_append(self, ex, st, a):
        M = modules()['ecc/mnt.c']
        ls = st.data.get('lists')
        if ls is None:
            o = M.struct_offsets('darray_s')
            n = ex.as_s(st, ex.load(st, Ptr(a[0].obj, a[0].off + o['count']), IntT(32), M), 32)
            it = ex.load(st, Ptr(a[0].obj, a[0].off + o['item']), PtrT(), M)
            n = int(n.const_value())
            ex.store(st, Ptr(it.obj, it.off + 8 * n), PtrT(), a[1], M)
            ring.setcell(st, a[0], o['count'], n + 1, 4)
            return
        if a[0] not in ls:
            raise Unsupported("append to another list in the loop")
        k = ls.index(a[0])
        if k != len(st.data['pend']):
            raise Unsupported("order of the lists")
        v = gmp.mget(ex, st, a[1])
        o = st.wobj(a[1].obj)
        o.mpz.pop(a[1].off, None)
        o.freed = True
        if not k:
            st.data['pend'] = (v,)
            return
        x, y = st.data['pend'][0], v
        st.data['pend'] = ()
        self.found += 1
        self.stepped(st, 'pair kept solves x^2 - D y^2 = N', to_z3(x * x - self.D * y * y) == self.N)

    def pell(self, N, d0, cnt):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.N, self.d0, self.cnt, self.found = N, d0, cnt, 0
        self.D = Poly.var('D')
        ex.assume(st, to_z3(self.D) >= 2)
        PellLoop(self, 'general_pell', 1)
        M = modules()['ecc/mnt.c']
        o = M.struct_offsets('pell_solution_s')
        ps = st.alloc(64, 'heap', 'ps')
        D = self.mpz(st, self.D)
        h = heap(st, [ps, D])
        n = 0
        for s, _ in self.fn(st, 'general_pell', ps, D, N, mod='ecc/mnt.c'):
            if not self.path_ok(s):
                continue
            n += 1
            g = lambda nm: gmp.mget(ex, s, Ptr(ps.obj, o[nm]))
            self.stepped(s, 'minimal solution has norm 1', to_z3(g('minx') ** 2 - self.D * g('miny') ** 2) == 1)
            c = ex.as_s(s, ex.load(s, Ptr(ps.obj, o['count']), IntT(32), M), 32)
            self.ieq(s, 'number of solutions', c, P(cnt))
            if cnt:
                x, y = (ring.getcell(s, ps, o[nm]) for nm in 'xy')
                for i in range(cnt):
                    a, b = (gmp.mget(ex, s, Ptr(t.obj, t.off + 16 * i)) for t in (x, y))
                    self.eq(s, 'solution %d' % i, a * a - self.D * b * b, P(N))
            self.ieq(s, 'D unchanged', gmp.mget(ex, s, D), self.D)
            for s2, _ in self.fn(s, 'pell_solution_clear', ps, mod='ecc/mnt.c'):
                if self.path_ok(s2):
                    self.no_leak(s2, h, None, 'general_pell and pell_solution_clear')
        if d0 == 1:
            self.flag('search can end', n >= 1, bad='unknown')
        else:
            self.flag('solutions can be found', self.found >= 1, bad='unknown')

    def body(self):
        for N in (-8, -20):
            for d0 in (1,) if self.leak else (1, -1):
                for cnt in (0, 1, 3) if d0 == 1 else (1,):
                    self.case('x^2 - D y^2 = %d, sign %d, %d solutions' % (N, d0, cnt), self.pell, N, d0, cnt)
