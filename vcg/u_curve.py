"""Elliptic-curve group law units"""
from .unit import *


class CurveUnit(Unit):
    name = 'curve group law'
    quotient = False

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("coordinate-field slots satisfy the abstract commutative-field contract")
        self.assumptions.add("coordinate-field characteristic > 3")

    def setup(self):
        ex, st = self.ex, State()
        F = ring.Base('F')
        fp = ring.mk_field(ex, st, F)
        self.F = F
        a = ring.new_elem(ex, st, F, Poly.var('A'))
        b = ring.new_elem(ex, st, F, Poly.var('B'))
        z = st.alloc(16, 'heap', 'order')
        gmp.minit(ex, st, z, 7)
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st.data['assume_sqr'] = True
        st, _ = self.one(self.fn(st, 'field_init_curve_ab', K, a, b, z, 0))
        st.data['assume_sqr'] = False
        return st, K, ring.Curve(F, Poly.var('A'), Poly.var('B'))

    def point(self, st, K, nm, kind):
        """kind: 'O' or 'P' ; an 'O' carries arbitrary stale coordinates"""
        p = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.api(st, 'init', p, K))
        st, _ = self.one(self.fn(st, 'curve_set_si', p, 1, 1))
        x, y = Poly.var(nm + 'x'), Poly.var(nm + 'y')
        self.putxy(st, p, x, y)
        if kind == 'O':
            st, _ = self.one(self.api(st, 'set0', p))
            return st, p, None
        rules = list(st.data.get('rules', ()))
        yv = sym_id(nm + 'y')
        st.data['rules'] = rules + [(yv, 2, x ** 3 + Poly.var('A') * x + Poly.var('B'))]
        return st, p, (x, y)

    def xy(self, st, p):
        s, x = self.one(self.api(st, 'x', p))
        s, y = self.one(self.api(st, 'y', p))
        return x, y

    def putxy(self, st, p, x, y):
        a, b = self.xy(st, p)
        ring.put(self.ex, st, a, x)
        ring.put(self.ex, st, b, y)

    def read(self, st, p):
        s, r = self.one(self.api(st, 'is0', p))
        if not isinstance(r, int):
            raise Unsupported("is0 undecided")
        if r:
            return None
        a, b = self.xy(st, p)
        return (ring.get(self.ex, st, a), ring.get(self.ex, st, b))

    def read_b(self, st, p):
        """values of a point, one per feasible state of its O flag"""
        for s, r in self.api(st.fork(), 'is0', p):
            c = self.ex.cond_of(s, r)
            for s2, z in (self.ex.branch(s, c) if not isinstance(c, bool) else [(s, c)]):
                if z:
                    yield s2, None
                else:
                    a, b = self.xy(s2, p)
                    yield s2, (ring.get(self.ex, s2, a), ring.get(self.ex, s2, b))

    def compare(self, s, name, args0, wants):
        for s2, w in wants:
            for s3, v in self.read_b(s2, args0):
                self.eq(s3, name, v, w)

    def do(self, op, alias, kinds):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        n = max(alias) + 1
        es, vs = [], []
        for i in range(n):
            st, p, v = self.point(st, K, "PQR"[i], kinds[i])
            es.append(p)
            vs.append(v)
        args = [es[i] for i in alias]
        ins = [vs[i] for i in alias[1:]]
        for s, r in self.api(st, op, *args):
            self.path_ok(s)
            if op in ('add', 'mul'):
                w = S.sum(ex, s.fork(), ins[0], ins[1])
            elif op in ('sub', 'div'):
                w = S.sum(ex, s.fork(), ins[0], S.neg(ins[1]))
            elif op in ('double', 'square'):
                w = S.sum(ex, s.fork(), ins[0], ins[0])
            elif op in ('neg', 'invert'):
                w = [(s, S.neg(ins[0]))]
            elif op == 'set':
                w = [(s, ins[0])]
            self.compare(s, 'value', args[0], w)
            for i in range(n):
                if i != alias[0]:
                    self.eq(s, 'operand unchanged', self.read(s, es[i]), vs[i])

    def pred(self, op, kinds, same=False):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        st, p, v = self.point(st, K, "P", kinds[0])
        if op == 'cmp':
            if same:
                q, w = p, v
            else:
                st, q, w = self.point(st, K, "Q", kinds[1])
            rs = self.api(st, 'cmp', p, q)
        else:
            rs = self.api(st, op, p)
        for s, r in rs:
            if op == 'cmp':
                if v is None or w is None:
                    c = not (v is None and w is None)
                else:
                    c = ring.conj(S.base.zero_c(ex, s, v[0] - w[0]), S.base.zero_c(ex, s, v[1] - w[1]))
                    c = (not c) if isinstance(c, bool) else z3.Not(c)
            else:
                c = v is None
            self.truth(s, 'truth value', r, c)
            self.eq(s, 'operand unchanged', self.read(s, p), v)

    def nul(self, op, kind):
        st0, K, S = self.setup()
        st = st0.fork()
        st, p, v = self.point(st, K, "P", kind)
        for s, r in self.api(st, op, p):
            self.eq(s, 'value', self.read(s, p), None)

    def multi(self, op, kinds, inplace, dest='O'):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        n = len(kinds)
        E = ring.LAY.e_size

        def arr(nm, kk):
            nonlocal st
            base = st.alloc(n * E, 'heap', nm)
            vals = []
            for i, k in enumerate(kk):
                st, p, v = self.point(st, K, "%s%d" % (nm, i), k)
                o = st.objs[p.obj]
                w = st.wobj(base.obj)
                for off, c in o.cells.items():
                    w.cells[i * E + off] = c
                vals.append(v)
            return base, vals
        a, av = arr('P', kinds)
        at = lambda b, i: Ptr(b.obj, i * E)
        if op == 'multi_double':
            c = a if inplace else arr('R', [dest] * n)[0]
            rs = self.api(st, op, c, a, n)
        else:
            b, bv = arr('Q', [k for k in kinds[::-1]])
            c = a if inplace else arr('R', [dest] * n)[0]
            rs = self.api(st, op, c, a, b, n)
        for s, r in rs:
            self.path_ok(s)
            for i in range(n):
                w = S.sum(ex, s.fork(), av[i], av[i] if op == 'multi_double' else bv[i])
                self.compare(s, 'value[%d]' % i, at(c, i), w)

    def body(self):
        if self.leak:
            self.case('lifecycle', self.lifecycle)
            self.case('lifecycle with a value', self.lifecycle, 'set1')
        for op in ('add', 'mul', 'sub', 'div'):
            for al in ALIAS3:
                n = max(al) + 1
                ks = [('P', 'P', 'P'), ('P', 'O', 'P'), ('P', 'P', 'O'), ('O', 'P', 'P'), ('O', 'O', 'O'), ('P', 'O', 'O')]
                for kk in sorted({k[:n] for k in ks}):
                    self.case("%s %s %s" % (op, alname(al), "".join(kk)), self.do, op, al, kk)
        for op in ('double', 'square', 'neg', 'invert', 'set'):
            for al in ALIAS2:
                n = max(al) + 1
                for kk in sorted({k[:n] for k in [('P', 'P'), ('P', 'O'), ('O', 'P'), ('O', 'O')]}):
                    self.case("%s %s %s" % (op, alname(al), "".join(kk)), self.do, op, al, kk)
        for kk in (('P', 'P'), ('P', 'O'), ('O', 'P'), ('O', 'O')):
            self.case("cmp " + "".join(kk), self.pred, 'cmp', kk)
        self.case("cmp same", self.pred, 'cmp', ('P',), True)
        for op in ('is0', 'is1'):
            for k in 'PO':
                self.case("%s %s" % (op, k), self.pred, op, (k,))
        for op in ('set0', 'set1'):
            for k in 'PO':
                self.case("%s %s" % (op, k), self.nul, op, k)


class CurveMultiUnit(CurveUnit):
    name = 'curve batch operations'
    bounded = 'batch size <= 3 (all point values)'

    def body(self):
        for op in ('multi_double', 'multi_add'):
            for kk in (('P',), ('O',), ('P', 'P'), ('O', 'P'), ('P', 'O'), ('P', 'O', 'P'), ('O', 'P', 'O')):
                for ip in (True, False):
                    for d in ('O', 'P'):
                        self.case("%s %s %s dest=%s" % (op, "".join(kk), 'in place' if ip else 'fresh', d), self.multi, op, kk, ip, d)


if __name__ == '__main__':
    modules('/tmp/w/ll')
    for U in (CurveUnit, CurveMultiUnit):
        r = U().run()
        from collections import Counter
        for n, s, d in r['results']:
            if s != 'proved':
                print(n, s, d[:300])
        print(Counter(x[1] for x in r['results']), r['wall'], r['solver'])
