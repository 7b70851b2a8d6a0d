"""Extension-field units: characteristic three towers and polynomial quotients"""
from .unit import *


def det(m):
    """determinant of a matrix of Polys by expansion"""
    n = len(m)
    if n == 1:
        return m[0][0]
    r = P(0)
    for j in range(n):
        if not P(m[0][j]).is_zero():
            sub = [row[:j] + row[j + 1:] for row in m[1:]]
            t = m[0][j] * det(sub)
            r = r + t if j % 2 == 0 else r - t
    return r


class ItemUnit(RingUnit):
    """coefficients are reached through element_item()"""
    n = 2

    def fresh_val(self, nm):
        return tuple(Poly.var("%s%d" % (nm, i)) for i in range(self.n))

    def subptrs(self, st, e):
        return [self.one(self.api(st, 'item', e, i))[1] for i in range(self.n)]

    def norm(self, S, v):
        """determinant of multiplication by v"""
        cols = []
        for i in range(self.n):
            b = tuple(P(1) if j == i else P(0) for j in range(self.n))
            cols.append(S.mul(b, v))
        return det([list(c) for c in cols])

    def inverse_pre(self, st, v):
        st.nonzeros.append(self.norm(self.S, v))


class TernUnit(ItemUnit):
    """GF(3^2m) and GF(3^3m), GF(3^6m) over an abstract field of characteristic three"""
    # these fields offer no conversion from integers, hence nothing defined through it
    skip = ('add_ui', 'halve', 'mul_si', 'mul_mpz', 'set_si', 'set_mpz')

    def __init__(self, kind=2, **k):
        self.kind = self.n = kind
        self.name = 'ternary tower, degree %d step' % kind
        super().__init__(**k)
        self.assumptions.add("base-field slots satisfy the abstract commutative-field contract in characteristic 3")
        self.assumptions.add("x^2+1 resp. x^3-x-1 is irreducible over the base, so only zero has norm zero")

    def setup(self):
        ex, st = self.ex, State()
        st.data['char'] = 3
        F = ring.Base('F')
        fp = ring.mk_field(ex, st, F)
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_gf32m' if self.kind == 2 else 'field_init_gf33m', K, fp))
        self.S = ring.PolyMod(F, (P(1), P(0)) if self.kind == 2 else (P(-1), P(-1), P(0)))
        return st, K, self.S


if __name__ == '__main__':
    modules('/tmp/w/ll')
    for k in (2, 3):
        r = TernUnit(k).run()
        for n, s, d in r['results']:
            if s != 'proved':
                print(n, s, d[:300])
        print(len(r['results']), r['wall'], r['solver'], len(r['functions']))


class PolymodUnit(ItemUnit):
    """F[x]/(f) for every monic f of one degree over an abstract field"""
    skip = ('cubic', 'halve')

    def __init__(self, n=3, inv=True, **k):
        self.n = n
        super().__init__(**k)
        self.name = 'polynomial quotient of degree %d' % n
        self.bounded = 'the degree of the modulus is fixed at %d; modulus coefficients and operands are arbitrary' % n
        if not inv:
            self.skip = self.skip + ('invert', 'div')
        self.assumptions.add("base-field slots satisfy the abstract commutative-field contract, characteristic above 3")
        self.assumptions.add("the modulus is irreducible, so only zero has norm zero")

    def setup(self):
        ex, st = self.ex, State()
        F = ring.Base('F')
        fp = ring.mk_field(ex, st, F)
        R = st.alloc(ring.LAY.size, 'heap', 'R')
        st, _ = self.one(self.fn(st, 'field_init_poly', R, fp))
        f = st.alloc(ring.LAY.e_size, 'heap', 'f')
        st, _ = self.one(self.api(st, 'init', f, R))
        st, _ = self.one(self.fn(st, 'poly_set_coeff1', f, self.n))
        m = [Poly.var('m%d' % i) for i in range(self.n)]
        for i in range(self.n):
            c = ring.new_elem(ex, st, F, m[i], 'c')
            st, _ = self.one(self.fn(st, 'poly_set_coeff', f, c, i))
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_polymod', K, f))
        self.S = ring.PolyMod(F, tuple(m))
        return st, K, self.S
