"""Exponentiation over an abstract commutative monoid.

An element is represented by its formal exponent vector: the value a^i b^j is the
linear form i*La + j*Lb, so equality of forms is equality in every commutative
monoid.  Exponents are integer terms over the bits of the mpz exponent."""
from .unit import *
from .loops import LoopInv, View


def hi(ex, st, n, s):
    """floor(n / 2^s) for n >= 0 as a symbol with hi(0) = n, hi(j) = 0 once j reaches the size"""
    s = P(s)
    if s.is_const() and int(s.const_value()) <= 0:
        return n
    t = st.data.setdefault('hi', {})
    k = (n.key(), s.key())
    if k in t:
        return t[k][0]
    zs = to_z3(s)
    if ex.check(st, [zs != 0]) == z3.unsat:
        return n
    sz = st.data.get('sib', {}).get((n.key(), 2))
    if sz is not None and ex.check(st, [zs < to_z3(sz)]) == z3.unsat:
        return P(0)
    for (nk, sk), (v, sp) in t.items():
        if nk == n.key() and ex.check(st, [zs != to_z3(sp)]) == z3.unsat:
            t[k] = (v, s)
            return v
    v = Poly.fresh('hi')
    t[k] = (v, s)
    z = to_z3(v)
    ex.assume(st, z3.And(z >= 0, z <= to_z3(n), z3.Implies(zs <= 0, z == to_z3(n))))
    if sz is not None:
        ex.assume(st, z3.Implies(zs >= to_z3(sz), z == 0))
    return v


def tstbit(ex, st, n, k):
    if isinstance(k, int):
        s = P(k)
    else:
        s = ex.as_u(st, k, 64)
    if ex.check(st, [to_z3(n) < 0]) != z3.unsat:
        raise Unsupported("bit of a negative number")
    h1, h0 = hi(ex, st, n, s + 1), hi(ex, st, n, s)
    b = h0 - h1 * 2
    z = to_z3(b)
    ex.assume(st, z3.And(z >= 0, z <= 1))
    if b.is_const():
        return int(b.const_value())
    return SI(32, b, 0, 1)


class ExpGroup(ring.Base):
    """commutative monoid written multiplicatively; values are exponent forms"""

    def __init__(self, real=(), name='G'):
        super().__init__(name)
        self.real = set(real)

    def load_slot(self, ex, st, o, off, ty):
        nm = ring.LAY.byoff.get(off)
        if nm in self.real:
            return None
        return super().load_slot(ex, st, o, off, ty)

    def one(self): return P(0)
    def zero(self): return P(0)
    def mul(self, a, b): return a + b
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def scal(self, k, a): return P(k) * a

    def s_div(self, ex, st, n, a, b):
        ring.put(ex, st, n, ring.get(ex, st, a) - ring.get(ex, st, b))

    def s_invert(self, ex, st, n, a):
        ring.put(ex, st, n, -ring.get(ex, st, a))

    def s_set_si(self, ex, st, n, z):
        raise Unsupported("integer constant in a group")
    s_set_mpz = s_set_si

    def s_pow_mpz(self, ex, st, n, a, z):
        ring.put(ex, st, n, ring.get(ex, st, a) * gmp.mget(ex, st, z))

    def s_is1(self, ex, st, a):
        raise Unsupported("comparison in the free monoid")
    s_is0 = s_cmp = s_is1


def array_get(ex, st, e):
    """value of the element at a symbolic position of an array of elements in geometric progression"""
    o = st.objs[e.obj]
    S = ring.LAY.e_size
    off = e.off
    q = Poly({m: c // S for m, c in off.t.items() if c % S == 0})
    if not (q * S == off):
        raise Unsupported("misaligned element")
    N = o.size // S
    z = to_z3(q)
    if ex.check(st, [z3.Or(z < 0, z >= N)]) != z3.unsat:
        raise Unsupported("index into a table of %d not shown in range" % N)
    vs = [ring.get(ex, st, Ptr(e.obj, S * i)) for i in range(N)]
    d = vs[1] - vs[0] if N > 1 else P(0)
    if all(vs[i] == vs[0] + d * i for i in range(N)):
        return vs[0] + d * q
    # a product over the bits of the index
    k = N.bit_length() - 1
    if N == 1 << k and all(vs[i] == vs[0] + sum(((vs[1 << j] - vs[0]) for j in range(k) if i >> j & 1), P(0)) for i in range(N)):
        r, cur = vs[0], q
        for j in range(k):
            cur, bit = ex.divmod(st, cur, P(2))
            r = r + bit * (vs[1 << j] - vs[0])
        return r
    raise Unsupported("table follows no known pattern")


_get = ring.get


def get(ex, st, e):
    if isinstance(e, Ptr) and isinstance(e.off, Poly):
        return array_get(ex, st, e)
    return _get(ex, st, e)


ring.get = get

REAL = ('pow_mpz', 'pp_init', 'pp_pow', 'pp_clear')


class WindInv(LoopInv):
    """result * a^(pending word) = a^(bits of n above s)"""

    def g(self, L, s):
        n = gmp.mget(L.ex, L.st, L.arg('n'))
        return n, hi(L.ex, L.st, n, s + 1)

    def logs(self, L):
        return self.unit.La

    def havoc(self, L):
        self.S = Poly.fresh('s')
        L.set_int('s', self.S, -1, (1 << 31) - 2)
        self.W = Poly.fresh('word')
        self.wb = Poly.fresh('wbits')
        self.iw = Poly.fresh('inword')
        k = L.int('k.addr')
        self.k = k
        L.set_int('inword', self.iw, 0, 1)
        L.set_int('word', self.W, 0, (1 << 20))
        L.set_int('wbits', self.wb, 0, 64)
        n = gmp.mget(L.ex, L.st, L.arg('n'))
        sz = L.st.data.get('sib', {}).get((n.key(), 2))
        L.assume(z3.And(to_z3(self.S) < to_z3(sz)))
        # inword = 0: value a^hi; inword = 1: a^(hi - word)
        zi, zw, zb = to_z3(self.iw), to_z3(self.W), to_z3(self.wb)
        L.assume(z3.Implies(zi == 1, z3.And(zb >= 1, zb < to_z3(k), zw >= 1, self.lt_pow(zw, zb))))
        L.assume(z3.Implies(to_z3(self.S) == -1, zi == 0))
        h = hi(L.ex, L.st, n, self.S + 1)
        self.R = Poly.fresh('R')
        zr, zh = to_z3(self.R), to_z3(h)
        L.assume(z3.If(zi == 1, zr == zh - zw, zr == zh))
        L.set_elem('result', self.R * self.logs(L))

    def lt_pow(self, zw, zb):
        # word < 2^wbits, wbits <= 8
        return z3.And(*[z3.Implies(zb == j, zw < (1 << j)) for j in range(0, 12)])

    def check(self, L, tag):
        ex, st = L.ex, L.st
        s = L.int('s')
        n, h = self.g(L, s)
        k = L.int('k.addr')
        iw = to_z3(L.int('inword'))
        w = L.int('word')
        wb = to_z3(L.int('wbits'))
        res = L.elem('result')
        La = self.logs(L)
        cs = res.coeffs_in(list(La.vars())[0])
        R = cs.get(1, P(0))
        if set(cs) - {0, 1} or (0 in cs and not cs[0].is_zero()):
            self.unit.ob('invariant of the window loop, ' + tag, 'unknown', 'not a power of the base')
            return
        zw = to_z3(w)
        goal = z3.And(z3.If(iw == 1, to_z3(R) == to_z3(h) - zw, to_z3(R) == to_z3(h)),
                      iw >= 0, iw <= 1, z3.Implies(iw == 1, z3.And(wb >= 1, wb < to_z3(k), zw >= 1, self.lt_pow(zw, wb))),
                      z3.Implies(to_z3(s) == -1, iw == 0), to_z3(s) >= -1, zw >= 0, zw <= 1 << 20, wb >= 0, wb <= 64)
        self.unit.holds(st, 'window loop invariant ' + tag, goal)

    def variant(self, L):
        return L.int('s') + 1


class Pow23Inv(LoopInv):
    """result = product of a_i^(bits of n_i above s)"""

    def __init__(self, unit, fn, k):
        self.k = k
        # the bit loop is the last one but the clearing loop for three bases
        super().__init__(unit, fn, 0 if k == 2 else 1)

    def want(self, L, s):
        r = P(0)
        for i in range(self.k):
            n = gmp.mget(L.ex, L.st, L.arg('n%d' % (i + 1)))
            r = r + hi(L.ex, L.st, n, s + 1) * self.unit.logs[i]
        return r

    def havoc(self, L):
        S = Poly.fresh('s')
        L.set_int('s', S, -1, (1 << 31) - 2)
        L.set_elem('result', self.want(L, S))

    def check(self, L, tag):
        s = L.int('s')
        self.unit.same(L.st, 'bit loop invariant ' + tag, L.elem('result'), self.want(L, s))
        self.unit.holds(L.st, 'bit position ' + tag, to_z3(s) >= -1)

    def variant(self, L):
        return L.int('s') + 1


class PowUnit(Unit):
    name = 'generic exponentiation over an abstract commutative monoid'

    def __init__(self, maxk=8, **k):
        super().__init__(**k)
        self.maxk = maxk
        self.ex.contracts['#tstbit'] = tstbit
        self.logs = [Poly.var('L1'), Poly.var('L2'), Poly.var('L3')]
        self.La = self.logs[0]
        self.assumptions.add("multiplication slots form a commutative monoid; exponents are non-negative and shorter than 2^31 bits")

    def holds(self, st, name, goal):
        if self.canary:
            goal = z3.Not(goal)
        r = self.ex.check(st, [z3.Not(goal)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(goal)[:200])
        self.canary_depth -= 1

    def same(self, st, name, got, want):
        """equality of exponent forms, coefficient by coefficient over the integers"""
        d = P(got) - P(want)
        if self.canary:
            d = d + self.La
        conds = []
        for L in self.logs:
            v = list(L.vars())[0]
            cs = d.coeffs_in(v)
            if any(e > 1 for e in cs):
                raise Unsupported("not an exponent form")
            if 1 in cs:
                conds.append(to_z3(cs[1]) == 0)
            d = cs.get(0, P(0))
        conds.append(to_z3(d) == 0)
        r = self.ex.check(st, [z3.Not(z3.And(*conds))])
        self.canary_depth += 1
        # an exponent that differs as an integer differs in the free monoid, but the terms may be abstracted products
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else 'got %r want %r' % (got, want))
        self.canary_depth -= 1

    def group(self, st, real=REAL, order=None):
        ex = self.ex
        G = ExpGroup(real)
        K = st.alloc(ring.LAY.size, 'heap', 'G')
        st, _ = self.one(self.fn(st, 'field_init', K))
        st.wobj(K.obj).desc = G
        G.ptr = K
        return st, G, K

    def mpz(self, st, nm, hi_=None):
        z = st.alloc(16, 'heap', nm)
        gmp.minit(self.ex, st, z)
        v = Poly.var(nm)
        gmp.mset(self.ex, st, z, v)
        self.ex.assume(st, to_z3(v) >= 0)
        if hi_ is not None:
            self.ex.assume(st, to_z3(v) < hi_)
        # exponents of at most 2^31-1 bits
        sz = self.ex.contracts['__gmpz_sizeinbase'](self.ex, st, [z, 2])
        self.ex.assume(st, to_z3(sz.p) < (1 << 31))
        return z, v

    def elem(self, st, G, v):
        return ring.new_elem(self.ex, st, G, v, 'e')

    # ---- cases
    def powmpz(self, same, lo, hi_):
        """x = a^n for exponents of the given range of sizes (one window width)"""
        self.ex.loopspecs = {}
        WindInv(self, 'element_pow_wind')
        st, G, K = self.group(State())
        z, n = self.mpz(st, 'n')
        sz = to_z3(st.data['sib'][(n.key(), 2)])
        self.ex.assume(st, z3.And(sz >= lo, sz <= hi_))
        a = self.elem(st, G, self.La)
        x = a if same else self.elem(st, G, Poly.var('X'))
        for s, _ in self.api(st, 'pow_mpz', x, a, z):
            self.same(s, 'x = a^n', ring.get(self.ex, s, x), self.La * n)
            if not same:
                self.same(s, 'base unchanged', ring.get(self.ex, s, a), self.La)
            self.same(s, 'exponent unchanged', gmp.mget(self.ex, s, z) * self.La, n * self.La)

    def pow23(self, k, alias):
        self.ex.loopspecs = {}
        Pow23Inv(self, 'element_pow%d_mpz' % k, k)
        st, G, K = self.group(State())
        es = [self.elem(st, G, self.logs[i]) for i in range(k)]
        zs = [self.mpz(st, 'n%d' % i) for i in range(k)]
        x = es[alias] if alias is not None else self.elem(st, G, Poly.var('X'))
        args = [x]
        for e, (z, v) in zip(es, zs):
            args += [e, z]
        for s, _ in self.api(st, 'pow%d_mpz' % k, *args):
            w = P(0)
            for L, (z, v) in zip(self.logs, zs):
                w = w + L * v
            self.same(s, 'x = product of powers', ring.get(self.ex, s, x), w)
            for i in range(k):
                if alias != i:
                    self.same(s, 'base unchanged', ring.get(self.ex, s, es[i]), self.logs[i])

    def table(self, bits, same):
        """preprocessed powers: table of the stated number of bits"""
        self.ex.loopspecs = {}
        WindInv(self, 'element_pow_wind')
        st, G, K = self.group(State())
        gmp.mset(self.ex, st, Ptr(K.obj, ring.LAY.off['order']), P((1 << bits) - 1))
        a = self.elem(st, G, self.La)
        z, n = self.mpz(st, 'n')
        x = a if same else self.elem(st, G, Poly.var('X'))
        for s2, _ in self.api(st, 'pp', a, x, z):
            self.same(s2, 'x = a^n', ring.get(self.ex, s2, x), self.La * n)
            left = [o.name for i, o in s2.objs.items() if i not in st.objs and not o.freed and o.kind == 'heap']
            self.ob('nothing left allocated', 'proved' if not left else 'refuted', str(left[:5]))

    def body(self):
        bounds = [(1, 47), (48, 157), (158, 474), (475, 1324), (1325, 3529), (3530, 9065), (9066, (1 << 31) - 1)]
        for lo, h in bounds[:self.maxk - 1]:
            for same in (False, True):
                self.case("pow_mpz %s, exponents of %d to %d bits" % ("(a,a)" if same else "(a,b)", lo, h), self.powmpz, same, lo, h)
        for k in (2, 3):
            for al in [None] + list(range(k)):
                self.case("pow%d_mpz alias %s" % (k, al), self.pow23, k, al)
        for bits in (1, 5, 9) if self.tier == 'quick' else (1, 4, 5, 9, 10, 14, 15, 19):
            self.case("preprocessed powers, %d-bit order" % bits, self.table, bits, bits == 9)
