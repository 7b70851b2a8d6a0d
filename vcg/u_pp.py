"""Preprocessed pairings: the table made for a point and what is computed from it.

The orders (and the exponents of type A) are small numbers, so that the table is laid out completely;
the points are arbitrary and the group law is a function symbol, so that the line through any two
multiples met is compared as a line through named points."""
from .u_miller import *
from .u_miller import AUnit, A1Unit, BitUnit, SCurve
from .u_tate import JoinUnit
from .unit import *


class PPMixin:
    bounded = 'orders below 32 (type A: exponents below 5); the points are arbitrary'

    def bits_of(self, st, r):
        """f_(r-1)(Q) by the rules; the line of the last addition is vertical"""
        ex, E = self.ex, self.E
        v, g = self.P[0], Formal()
        for m in range(max(r.bit_length() - 2, 0), -1, -1):
            g = g.mul(self.F2.val(self.at(self.tangent(v))))
            if not m:
                return g
            v = E.sum(ex, st, v, v)[0][1]
            if r >> m & 1:
                g = g.mul(self.F2.val(self.at(self.line(v, self.P[0]))))
                v = E.sum(ex, st, v, self.P[0])[0][1]
            g = g.pow(2)

    def table(self, st):
        o = modules()[self.src].struct_offsets('pairing_pp_s')
        p = st.alloc(max(o.values()) + 8, 'heap', 'preprocessed')
        ring.setcell(st, p, o['pairing'], self.pr)
        return p

    def run_pp(self, st, fns, want, G2, q):
        """table made, used twice, cleared"""
        ex = self.ex
        init, apply_, clear = fns
        a = self.curve_elem(st, self.E, self.P[0])
        b = ring.new_elem(ex, st, G2, q)
        out = ring.new_elem(ex, st, self.F2, None)
        p = self.table(st)
        hp = heap(st, [a, b, out, p, self.pr] + self.more())
        n = 0
        for s, _ in self.fn(st, init, p, a, self.pr, mod=self.src):
            self.eq(s, 'point unchanged', ring.get(ex, s, a), self.P[0])
            for turn in ('', ' again'):
                nxt = []
                for s1, _ in self.fn(s, apply_, out, b, p, mod=self.src):
                    if not self.path_ok(s1):
                        continue
                    want(s1, ring.get(ex, s1, out), turn)
                    self.eq(s1, 'point unchanged', ring.get(ex, s1, b), q)
                    nxt.append(s1)
                if len(nxt) != 1:
                    raise Unsupported("%d paths" % len(nxt))
                s = nxt[0]
            for s2, _ in self.fn(s, clear, p, mod=self.src):
                n += 1
                self.path_ok(s2)
                self.no_leak(s2, hp, None, 'table made, used and cleared')
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    def more(self):
        return []


class PPAUnit(PPMixin, AUnit):
    name = 'preprocessed pairing of type A'

    def setup(self, sign, n=1):
        st = super().setup(sign, n)
        d = ring.getcell(st, self.pr, self.po['data'])
        o = self.off('a_pairing_data_ptr')
        ring.setcell(st, d, o['exp1'], self.k[0], 4)
        ring.setcell(st, d, o['exp2'], self.k[1], 4)
        self.E = SCurve(self.Fq, self.A, self.B)
        self.E.mk = lambda st: self.pt(st, 's')
        ring.embed_field(st, Ptr(d.obj, o['Eq']), self.E)
        return st

    def final(self, st, f):
        e1, e2 = self.k
        ex, E = self.ex, self.E
        v, g, g1 = self.P[0], Formal(), None
        for i in range(e2):
            if i == e1:
                v1, g1 = v, g
            g = g.pow(2).mul(self.F2.val(self.at(self.tangent(v))))
            v = E.sum(ex, st, v, v)[0][1]
        w = (v1[0], v1[1] * self.sign)
        st.nonzeros.append(w[0] - v[0])
        g = g.mul(g1.pow(self.sign)).mul(self.F2.val(self.at(self.line(v, w))))
        self.prop(st, 'value handed to the final powering is f_N, N = 2^exp2 + sign1 2^exp1', f, g, self.F2)

    def go1(self, e1, e2, sign):
        self.k = (e1, e2)
        st = self.setup(sign)

        def want(s, got, turn):
            ok = (got == s.data.get('tate')) != self.canary
            self.canary_depth += 1
            self.ob('result is the powered value' + turn, 'proved' if ok else 'failed', repr(got))
            self.canary_depth -= 1
        self.run_pp(st, ('a_pairing_pp_init', 'a_pairing_pp_apply', 'a_pairing_pp_clear'), want, self.E, self.Q[0])

    def body(self):
        for sign in (1, -1):
            for e2 in range(2, 5):
                for e1 in range(1, e2):
                    self.case('exp1 %d, exp2 %d, sign1 %d' % (e1, e2, sign), self.go1, e1, e2, sign)


class PPA1Unit(PPMixin, A1Unit):
    name = 'preprocessed pairing of type A1'
    bounded = 'orders below 14; the points are arbitrary'

    def go1(self, r):
        st = self.setup(1, False)
        po = self.off('pairing_s')
        st.wobj(self.pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: P(r)}
        self.run_pp(st, ('a1_pairing_pp_init', 'a1_pairing_pp_apply', 'a1_pairing_pp_clear'),
                    lambda s, got, turn: self.tate(s, got, self.bits_of(s, r)), self.E, self.Q[0])

    def body(self):
        for r in range(3, 14, 2):
            self.case('order %d' % r, self.go1, r)


class PPTwistUnit(PPMixin, JoinUnit):
    def __init__(self, kind='d', **k):
        super().__init__(**k)
        self.kind0 = kind
        self.name = 'preprocessed pairing of type ' + kind.upper()

    at = BitUnit.at

    def c_tate(self, ex, st, a):
        out, inp, pr = a[:3]
        if pr != self.pr:
            self.ob('powering with the same pairing', 'failed', '')
            return
        self.prop(st, 'value handed to the final powering is f_(r-1)', ring.get(ex, st, inp), self.bits_of(st, self.r), self.F2)
        t = sym('TATE')
        st.data['tate'] = t
        ring.put(ex, st, out, t)

    def go1(self, r):
        ex = self.ex
        src, tag, kind, d = {'d': ('ecc/d_param.c', 'pptr', 'd', 3), 'g': ('ecc/g_param.c', 'mnt_pairing_data_ptr', 'g', 5)}[self.kind0]
        st = self.setup(src, tag, kind, d)
        self.r = r
        po = self.off('pairing_s')
        st.wobj(self.pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: P(r)}
        self.aelem = ring.new_elem(ex, st, self.Fq, self.A, 'curve a')
        self.P = (self.pt(st, 'p'),)
        q = self.g2(st, 'q')
        self.Q = (self.twist(q),)

        def want(s, got, turn):
            ok = (got == s.data.get('tate')) != self.canary
            self.canary_depth += 1
            self.ob('result is the powered value' + turn, 'proved' if ok else 'failed', repr(got))
            self.canary_depth -= 1
        self.run_pp(st, ('%s_pairing_pp_init' % kind, '%s_pairing_pp_apply' % kind, '%s_pairing_pp_clear' % kind), want, self.G2, q)

    def more(self):
        return [self.aelem, self.F2.ptr]

    def body(self):
        for r in range(3, 32, 2):
            self.case('order %d' % r, self.go1, r)
