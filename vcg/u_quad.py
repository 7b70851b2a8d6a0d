"""Quadratic extension units"""
from .unit import *


class QuadUnit(RingUnit):
    kind = 'fq'
    skip = ('add_ui', 'cubic')

    def __init__(self, kind='fq', **k):
        self.kind = kind
        self.name = 'quadratic extension ' + kind
        super().__init__(**k)
        self.assumptions.add("base-field slots satisfy the abstract commutative-ring contract (each concrete base has its own units)")
        self.assumptions.add("nqr is a quadratic non-residue of the base, so a^2 - nqr*b^2 = 0 only for a = b = 0")
        self.assumptions.add("base characteristic > 3")

    def setup(self):
        ex, st = self.ex, State()
        F = ring.Base('F')
        fp = ring.mk_field(ex, st, F)
        if self.kind == 'fq':
            nqr = Poly.var('nqr')
            nq = ring.new_elem(ex, st, F, nqr)
            self.keep = [nq]
            st.wobj(fp.obj).cells[ring.LAY.off['nqr']] = (8, nq)
            ini = 'field_init_quadratic'
        else:
            nqr = P(-1)
            ini = 'field_init_fi'
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, ini, K, fp))
        return st, K, ring.Pair(F, nqr)

    def fresh_val(self, nm):
        return (Poly.var(nm + 'x'), Poly.var(nm + 'y'))

    def subptrs(self, st, e):
        s, x = self.one(self.api(st, 'x', e))
        s, y = self.one(self.api(st, 'y', e))
        return x, y

    def inverse_pre(self, st, v):
        nqr = Poly.var('nqr') if self.kind == 'fq' else P(-1)
        st.nonzeros.append(v[0] * v[0] - nqr * v[1] * v[1])


if __name__ == '__main__':
    modules('/tmp/w/ll')
    for k in ('fq', 'fi'):
        r = QuadUnit(k).run()
        for n, s, d in r['results']:
            if s != 'proved':
                print(n, s, d)
        print(len(r['results']), r['wall'], r['solver'], r['functions'])
