"""Discrete logarithms (C19).

The group has prime order r and is generated by g: an element is represented by its
logarithm, an element of the field Z_r, so multiplication adds logarithms and equality of
elements is equality in Z_r.  g has logarithm 1 and the target h an arbitrary X."""
from .unit import *
from . import u_enc, u_pow
from .u_enc import Bytes
from .loops import LoopInv
from .ir import IntT, PtrT

X = Poly.var('X')


class LogGroup(ring.Base):
    def one(self): return P(0)
    def zero(self): return P(0)
    def mul(self, a, b): return a + b
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b

    def s_set1(self, ex, st, n): ring.put(ex, st, n, P(0))
    s_set0 = s_set1

    def s_square(self, ex, st, n, a): ring.put(ex, st, n, ring.get(ex, st, a) * 2)
    s_doub = s_square

    def s_invert(self, ex, st, n, a): ring.put(ex, st, n, -ring.get(ex, st, a))
    s_neg = s_invert

    def s_div(self, ex, st, n, a, b): ring.put(ex, st, n, ring.get(ex, st, a) - ring.get(ex, st, b))

    def s_is1(self, ex, st, a): return ring.bool_result(ex, st, self.zero_c(ex, st, ring.get(ex, st, a)))
    s_is0 = s_is1

    def s_set_si(self, ex, st, n, z): raise Unsupported("integer constant in a group")
    s_set_mpz = s_set_si

    def s_pow_mpz(self, ex, st, n, a, z): ring.put(ex, st, n, ring.get(ex, st, a) * gmp.mget(ex, st, z))
    s_mul_mpz = s_pow_mpz

    def load_slot(self, ex, st, o, off, ty):
        if ring.LAY.byoff.get(off) == 'fixed_length_in_bytes':
            return (1 << 32) - 1
        return super().load_slot(ex, st, o, off, ty)

    def s_length_in_bytes(self, ex, st, a):
        L = Poly.var('L_G')
        ex.assume(st, z3.And(to_z3(L) >= 1, to_z3(L) <= 1 << 24))
        return SI(32, L, 1, 1 << 24)

    def s_to_bytes(self, ex, st, d, a):
        L = Poly.var('L_G')
        g = u_enc.buf(st, d)
        g.need(ex, st, P(d.off), L, 'write of an encoding')
        return SI(32, L, 1, 1 << 24)


class Zr(ring.Base):
    def s_to_mpz(self, ex, st, z, a):
        """the integer stands for the residue: used as an exponent it acts as the residue does"""
        gmp.mset(ex, st, z, ring.get(ex, st, a))


class Hole:
    """records of the walk: every one satisfies snark = a + b X"""

    def __init__(self, G, Z, offs):
        self.G, self.Z, self.offs = G, Z, offs

    def havocked(self):
        return self

    def w_load(self, ex, st, o, off, ty, n):
        cnt = st.data['hole_count']
        S = 8
        i = P(off) * Poly({(): 1})
        q = Poly({m: c // S for m, c in i.t.items()})
        if not (q * S == i):
            raise Unsupported("misaligned item")
        if ex.check(st, [z3.Or(to_z3(q) < 0, to_z3(q) >= to_z3(cnt))]) != z3.unsat:
            raise MemError("record outside the list")
        t = st.data.setdefault('records', {})
        if q.key() in t and not st.objs[t[q.key()].obj].freed:
            return t[q.key()]
        p = st.alloc(None, 'heap', 'snapshot')
        a, b = Poly.fresh('ra'), Poly.fresh('rb')
        for off2, D, v in zip(self.offs, (self.Z, self.Z, self.G), (a, b, a + b * X)):
            e = Ptr(p.obj, off2)
            ring.setcell(st, e, ring.LAY.e_field, D.ptr)
            d = D.new_data(st)
            st.wobj(d.obj).name = 'snapshot'
            ring.setcell(st, e, ring.LAY.e_data, d)
            ring.put(ex, st, e, v)
        st.data['records'] = dict(t)
        st.data['records'][q.key()] = p
        return p

    def w_store(self, ex, st, o, off, ty, n, v):
        raise Unsupported("store to the list of records")


class Any(LoopInv):
    """invariant `true` over the named integers, which stay in range"""

    def __init__(self, unit, fn, idx, ints=(), lo=0, hi=None, **k):
        super().__init__(unit, fn, idx)
        self.ints, self.lo, self.hi = ints, lo, hi

    def havoc(self, L):
        for nm, w, hi in self.ints:
            v = Poly.fresh(nm)
            top = hi(L) if callable(hi) else P(hi)
            L.set_int(nm, v, 0, 1 << (w - 1 if w > 8 else 8), w)
            L.assume(z3.And(to_z3(v) >= 0, to_z3(v) <= to_z3(top)))

    def check(self, L, tag):
        for nm, w, hi in self.ints:
            v = L.int(nm, w, w > 8)
            top = hi(L) if callable(hi) else P(hi)
            self.unit.goal(L.st, 'position in range (%s)' % tag, z3.And(to_z3(v) >= 0, to_z3(v) <= to_z3(top)), bad='unknown')


class Clear(Any):
    """each way round releases the record it looks at"""

    def havoc(self, L):
        super().havoc(L)
        self.drop(L.st)

    def drop(self, st):
        for i, o in list(st.objs.items()):
            if o.name == 'snapshot' and not o.freed:
                st.wobj(i).freed = True
        st.data['records'] = {}

    def check(self, L, tag):
        super().check(L, tag)
        if tag == 'preserved':
            u = self.unit
            if u.canary:
                L.st.alloc(8, 'heap', 'snapshot')
            n = sum(1 for o in L.st.objs.values() if o.name == 'snapshot' and not o.freed)
            u.canary_depth += 1
            u.ob('every record is released', 'proved' if not n and L.st.data['records'] else 'failed', '%d objects left' % n)
            u.canary_depth -= 1


class Brute(LoopInv):
    """g0 = g^count"""

    def havoc(self, L):
        c = Poly.fresh('count')
        L.set_mpz('count', c)
        L.assume(to_z3(c) >= 1)
        L.set_elem('g0', c)

    def check(self, L, tag):
        self.unit.eq(L.st, 'g0 is the base to the power count (%s)' % tag, L.elem('g0'), L.mpz('count'))


class Walk(LoopInv):
    """snark = g^asum h^bsum, m_i = g^a_i h^b_i, and the same for every record"""

    def arrs(self, L):
        return {n: L.ptr(n).obj for n in 'abm'}

    def havoc(self, L):
        a, b = Poly.fresh('as'), Poly.fresh('bs')
        L.set_elem('asum', a)
        L.set_elem('bsum', b)
        L.set_elem('snark', a + b * X)
        L.set_elem('g0', Poly.fresh('g0'))
        n = Poly.fresh('n')
        self.unit.set_count(L.st, n)
        L.assume(z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 30))
        k = Poly.fresh('counter')
        L.set_mpz('counter', k)
        L.assume(to_z3(k) >= 0)
        L.set_int('interval', Poly.fresh('interval'), 0, 1 << 20)
        L.set_int('i', Poly.fresh('i'), 0, 1 << 30)
        L.st.data['symarr'] = {o: nm for nm, o in self.arrs(L).items()}

    def check(self, L, tag):
        u = self.unit
        u.eq(L.st, 'snark is g^asum h^bsum (%s)' % tag, L.elem('snark'), L.elem('asum') + L.elem('bsum') * X)
        if tag == 'entry':
            S = ring.LAY.e_size
            o = self.arrs(L)
            for i in range(L.st.objs[o['m']].size // S):
                a, b, m = (ring._get0(L.ex, L.st, Ptr(o[k], i * S)) for k in 'abm')
                u.eq(L.st, 'multiplier %d is g^a h^b' % i, m, a + b * X)


ring._get0 = u_pow._get


def sym_get(ex, st, e):
    o = st.data.get('symarr', {}).get(e.obj)
    S = ring.LAY.e_size
    q = Poly({m: c // S for m, c in P(e.off).t.items()})
    if not (q * S == P(e.off)):
        raise Unsupported("misaligned element")
    N = st.objs[e.obj].size // S
    if ex.check(st, [z3.Or(to_z3(q) < 0, to_z3(q) >= N)]) == z3.sat:
        raise MemError("multiplier index out of range")
    t = st.data.get('symarrv', {})
    if q.key() not in t:
        t = dict(t)
        t[q.key()] = (Poly.fresh('ma'), Poly.fresh('mb'))
        st.data['symarrv'] = t
    a, b = t[q.key()]
    return {'a': a, 'b': b, 'm': a + b * X}[o]


_get = ring.get


def get(ex, st, e):
    if isinstance(e, Ptr) and st.data.get('symarr') and e.obj in st.data['symarr']:
        return sym_get(ex, st, e)
    return _get(ex, st, e)


ring.get = get


class LogUnit(Unit):
    name = 'discrete logarithms'

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("the group has prime order and g generates it; element_pow_zn and the group law are exact (C05)")
        C = self.ex.contracts
        C['darray_init'] = self.c_init
        C['darray_append'] = self.c_append
        C['darray_clear'] = self.c_clear
        C['element_printf'] = lambda ex, st, a: 0
        C['__gmpz_probab_prime_p'] = lambda ex, st, a: 2
        C['pbc_malloc_contract'] = self.c_malloc
        C['#tstbit'] = self.c_tstbit
        self.may_die = False

    def goal(self, st, name, g, bad='failed'):
        if self.canary:
            g = z3.Not(g)
        r = self.ex.check(st, [z3.Not(g)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else bad if r == z3.sat else 'unknown', '' if r == z3.unsat else str(g)[:200])
        self.canary_depth -= 1

    def c_tstbit(self, ex, st, n, k):
        v = Poly.fresh('bit')
        ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) <= 1))
        return SI(32, v, 0, 1)

    def c_malloc(self, ex, st, a):
        p = gmp.C['pbc_malloc_contract'](ex, st, a)
        if not isinstance(a[0], int):
            st.wobj(p.obj).ghost = u_enc.Bytes(ex.as_u(st, a[0], 64))
        return p

    def dlay(self):
        return modules()['arith/dlog.c'].struct_offsets('darray_s')

    def c_init(self, ex, st, a):
        o = self.dlay()
        h = st.alloc(None, 'ghost', 'items')
        so = modules()['arith/dlog.c'].struct_offsets('snapshot_s')
        st.wobj(h.obj).ghost = Hole(self.G, self.Z, (so['a'], so['b'], so['snark']))
        ring.setcell(st, a[0], o['item'], h)
        self.hole = a[0]
        self.set_count(st, P(0))

    def set_count(self, st, n):
        st.data['hole_count'] = n
        ring.setcell(st, self.hole, self.dlay()['count'], SI(32, n, 0, 1 << 30) if not n.is_const() else int(n.const_value()), 4)

    def c_append(self, ex, st, a):
        so = modules()['arith/dlog.c'].struct_offsets('snapshot_s')
        e = [Ptr(a[1].obj, a[1].off + so[k]) for k in ('a', 'b', 'snark')]
        x, y, z = (ring.get(ex, st, p) for p in e)
        self.eq(st, 'recorded snark is g^a h^b', z, x + y * X)
        # the record belongs to the list now
        st.wobj(a[1].obj).freed = True
        for p in e:
            st.wobj(ring.getcell_raw(st, p).obj).freed = True
        self.set_count(st, st.data['hole_count'] + 1)

    def c_clear(self, ex, st, a):
        st.wobj(ring.getcell(st, a[0], self.dlay()['item']).obj).freed = True

    def setup(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.G, self.Z = LogGroup('G'), Zr('Z')
        ring.mk_field(ex, st, self.G)
        ring.mk_field(ex, st, self.Z)
        return st, ring.new_elem(ex, st, self.Z, Poly.var('x0')), ring.new_elem(ex, st, self.G, P(1)), ring.new_elem(ex, st, self.G, X)

    def brute(self):
        st, x, g, h = self.setup()
        Brute(self, 'element_dlog_brute_force', 0)
        self.finish(st, 'element_dlog_brute_force', x, g, h)

    def finish(self, st, fn, x, g, h):
        ex = self.ex
        hp = heap(st, [x, g, h])
        for s, _ in self.fn(st, fn, x, g, h):
            if not self.path_ok(s):
                continue
            self.eq(s, 'the base to the result is the target', ring.get(ex, s, x), X)
            self.eq(s, 'base unchanged', ring.get(ex, s, g), P(1))
            self.eq(s, 'target unchanged', ring.get(ex, s, h), X)
            self.no_leak(s, hp, None, fn)

    def rho(self):
        st, x, g, h = self.setup()
        f = 'element_dlog_pollard_rho'
        cnt = lambda L: L.st.data['hole_count']
        Walk(self, f, 1)
        Any(self, f, 2, [('i', 32, Poly.var('L_G')), ('hash', 8, 255)])
        Any(self, f, 3, [('i', 32, cnt)])
        Clear(self, f, 6, [('i', 32, cnt)])
        self.finish(st, f, x, g, h)

    def body(self):
        self.case('brute force', self.brute)
        self.case('Pollard rho', self.rho)
