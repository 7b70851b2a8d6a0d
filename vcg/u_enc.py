"""Byte encodings of composite elements (C07) and points (C08).

A buffer is a ghost object of symbolic size holding encodings of base-field elements at
symbolic offsets.  The coordinate field is abstract: it encodes an element in L bytes (any
L, or a length depending on the element), equal elements alike, and decodes what it
encoded; decoding any other bytes gives some element."""
from .unit import *
from . import u_quad, u_ext, u_curve, u_fp
from .loops import LoopInv
from .ir import IntT

BIG = 1 << 24


class Bytes:
    """size; segs: (offset, length, content), disjoint; reads of unknown bytes are recorded"""

    def __init__(self, size, segs=()):
        self.size, self.segs = P(size), tuple(segs)

    def havocked(self):
        return Bytes(self.size)

    def need(self, ex, st, off, n, what):
        c = z3.And(to_z3(off) >= 0, to_z3(off) + to_z3(n) <= to_z3(self.size))
        r = ex.check(st, [z3.Not(c)])
        if r == z3.sat:
            raise MemError("%s outside the buffer" % what)
        if r != z3.unsat:
            raise Unsupported("%s not shown inside the buffer" % what)

    def find(self, ex, st, off, n):
        for o, l, c in self.segs:
            if (o == off and l == n) or ex.check(st, [z3.Not(z3.And(to_z3(o) == to_z3(off), to_z3(l) == to_z3(n)))]) == z3.unsat:
                return c
        return None

    def at(self, ex, st, off):
        """segment starting here"""
        for o, l, c in self.segs:
            if o == off or ex.check(st, [to_z3(o) != to_z3(off)]) == z3.unsat:
                return l, c
        return None

    def put(self, ex, st, o, off, n, c, fresh=False):
        keep = []
        for a, l, d in self.segs:
            if fresh or ex.check(st, [z3.And(to_z3(a) < to_z3(off) + to_z3(n), to_z3(off) < to_z3(a) + to_z3(l))]) == z3.unsat:
                keep.append((a, l, d))
        o.ghost = Bytes(self.size, keep + [(off, n, c)])

    def w_load(self, ex, st, o, off, ty, n):
        off = P(off)
        self.need(ex, st, off, P(n), 'read')
        if n != 1:
            raise Unsupported("wide access to a byte buffer")
        c = self.find(ex, st, off, P(1))
        if c is None:
            c = ('byte', SI(8, Poly.fresh('byte'), 0, 255))
            ex.assume(st, z3.And(to_z3(c[1].p) >= 0, to_z3(c[1].p) <= 255))
            self.put(ex, st, st.wobj(o_id(st, o)), off, P(1), c, fresh=True)
        if c[0] != 'byte':
            raise Unsupported("byte of an encoding")
        return c[1]

    def w_store(self, ex, st, o, off, ty, n, v):
        off = P(off)
        self.need(ex, st, off, P(n), 'write')
        if n != 1:
            raise Unsupported("wide access to a byte buffer")
        self.put(ex, st, o, off, P(1), ('byte', v))

    def w_copy(self, ex, st, d, s, n):
        """n bytes, n possibly zero"""
        n = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        for p, what in ((d, 'write'), (s, 'read')):
            buf(st, p).need(ex, st, P(p.off), n, what)
        buf(st, d).put(ex, st, st.wobj(d.obj), P(d.off), n, ('copy', s.obj, P(s.off)))
        return d

    def w_fill(self, ex, st, d, v, n):
        n = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        self.need(ex, st, P(d.off), n, 'memset')
        if v != 0:
            raise Unsupported("memset nonzero")
        self.put(ex, st, st.wobj(d.obj), P(d.off), n, ('num', P(0)))
        return d

    def put_num(self, ex, st, d, n, v):
        self.need(ex, st, P(d.off), n, 'write of a number')
        self.put(ex, st, st.wobj(d.obj), P(d.off), n, ('num', v))

    def get_num(self, ex, st, d, n):
        """big-endian number in n bytes"""
        off = P(d.off)
        self.need(ex, st, off, n, 'read of a number')
        v = self.number(ex, st, off, n)
        if v is None:
            v = Poly.fresh('bytes')
            ex.assume(st, to_z3(v) >= 0)
            keep = [(a, l, c) for a, l, c in self.segs if ex.check(st, [z3.And(to_z3(a) < to_z3(off + n), to_z3(off) < to_z3(a) + to_z3(l))]) == z3.unsat]
            if len(keep) == len(self.segs):
                self.put(ex, st, st.wobj(d.obj), off, n, ('num', v), fresh=True)
        return v

    def number(self, ex, st, off, n):
        """value of the parts that make up the range: zeros followed by one number"""
        cur, val, left = off, P(0), list(self.segs)
        for _ in range(len(left) + 1):
            if ex.check(st, [to_z3(cur) != to_z3(off + n)]) == z3.unsat:
                return val
            hit = [g for g in left if g[2][0] == 'num' and ex.check(st, [to_z3(g[0]) != to_z3(cur)]) == z3.unsat]
            hit.sort(key=lambda g: not g[2][1].is_zero())
            if not hit:
                return None
            g = hit[0]
            left.remove(g)
            if not val.is_zero():
                return None
            cur, val = cur + g[1], g[2][1]
        return None


def o_id(st, o):
    for i, p in st.objs.items():
        if p is o:
            return i
    raise Unsupported("object")


class EncBase(ring.Base):
    """fixed: every element takes L bytes; otherwise a length depending on the element"""

    def __init__(self, name='F', fixed=True):
        super().__init__(name)
        self.fixed = fixed

    def load_slot(self, ex, st, o, off, ty):
        if ring.LAY.byoff.get(off) == 'fixed_length_in_bytes':
            if not self.fixed:
                return (1 << 32) - 1
            L = Poly.var('L_' + self.name)
            ex.assume(st, z3.And(to_z3(L) >= 1, to_z3(L) <= BIG))
            return SI(32, L, 1, BIG)
        return super().load_slot(ex, st, o, off, ty)

    def length(self, ex, st, v):
        if self.fixed:
            L = Poly.var('L_' + self.name)
        else:
            t = st.data.get('enclen', ())
            v = ring.value_form(st, v)
            k = ring.lookup(st, t, v)
            L = k[0] if k else Poly.fresh('L')
            if k is None:
                st.data['enclen'] = tuple(t) + ((v, L),)
        ex.assume(st, z3.And(to_z3(L) >= 1, to_z3(L) <= BIG))
        return L

    def s_length_in_bytes(self, ex, st, a):
        return SI(32, self.length(ex, st, ring.get(ex, st, a)), 1, BIG)

    def s_to_bytes(self, ex, st, d, a):
        v = ring.value_form(st, ring.get(ex, st, a))
        L = self.length(ex, st, v)
        g = buf(st, d)
        g.need(ex, st, P(d.off), L, 'write of an encoding')
        g.put(ex, st, st.wobj(d.obj), P(d.off), L, ('enc', self.name, v))
        return SI(32, L, 1, BIG)

    def s_from_bytes(self, ex, st, a, d):
        g = buf(st, d)
        off = P(d.off)
        h = g.at(ex, st, off)
        if h is not None and h[1][0] == 'enc' and h[1][1] == self.name:
            ring.put(ex, st, a, h[1][2])
            return SI(32, h[0], 1, BIG)
        L = self.length(ex, st, Poly.fresh('decoded'))
        g.need(ex, st, off, L, 'read of an encoding')
        if h is not None and (h[1][0] != 'dec' or h[1][1] != self.name):
            raise Unsupported("decoding across parts")
        v = h[1][2] if h is not None else Poly.fresh('dec')
        if h is None:
            g.put(ex, st, st.wobj(d.obj), off, L, ('dec', self.name, v), fresh=True)
        ring.put(ex, st, a, v)
        return SI(32, L, 1, BIG)

    def sqrt_val(self, ex, st, v):
        for w, y in st.data.get('knownroots', ()):
            if ring.prove_zero(st, w - v, deep=False):
                raise RootOf(y)
        return super().sqrt_val(ex, st, v)

    def s_sqrt(self, ex, st, n, a):
        try:
            return super().s_sqrt(ex, st, n, a)
        except RootOf as e:
            st.data['undefined_ops'] = []
            t = st.fork()
            ring.put(ex, st, n, e.y)
            ring.put(ex, t, n, -e.y)
            return [(st, None), (t, None)]


class RootOf(Exception):
    def __init__(self, y):
        self.y = y


def buf(st, d):
    if not isinstance(d, Ptr):
        raise MemError("encoding through %r" % (d,))
    o = st.objs[d.obj]
    if o.freed:
        raise MemError("use of a freed buffer")
    if not isinstance(o.ghost, Bytes):
        raise Unsupported("encoding into ordinary memory")
    return o.ghost


class EncMixin:
    fixed = True

    def new_base(self, name='F'):
        return EncBase(name, self.fixed)

    def with_base(self, f):
        keep = ring.Base
        ring.Base = self.new_base
        try:
            return f()
        finally:
            ring.Base = keep

    def setup(self):
        return self.with_base(super().setup)

    def buffer(self, st, size):
        b = st.alloc(None, 'heap', 'buffer')
        st.wobj(b.obj).ghost = Bytes(size)
        return b

    def num(self, st, r):
        return self.ex.as_s(st, r, 32)

    def inteq(self, st, name, a, b):
        if self.canary:
            b = P(b) + 1
        r = self.ex.check(st, [to_z3(P(a)) != to_z3(P(b))])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'refuted' if r == z3.sat and self.real(st) else 'unknown', '' if r == z3.unsat else 'got %r want %r' % (a, b))
        self.canary_depth -= 1

    def covered(self, st, name, b, size, v):
        """the encodings of the coordinates, and nothing else, fill the buffer"""
        g = st.objs[b.obj].ghost
        tot = P(0)
        for _, l, _ in g.segs:
            tot = tot + l
        self.inteq(st, name + ' fills the announced length', tot, size)
        ok = True
        allow = set()
        for x in v if v is not None else ():
            allow |= ring.value_form(st, P(x)).vars()
        allow |= self.params()
        for _, l, c in g.segs:
            if c[0] == 'enc' and not c[2].vars() <= allow:
                ok = False
        if self.canary:
            ok = False
        self.canary_depth += 1
        self.ob(name + ' depends on the value only', 'proved' if ok else 'failed', '' if ok else repr(g.segs)[:300])
        self.canary_depth -= 1

    def params(self):
        return {sym_id('nqr'), sym_id('A'), sym_id('B')}


class RingEnc(EncMixin):
    """elements whose coordinates are base elements"""

    def roundtrip(self, same):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        for s, n in self.api(st, 'length_in_bytes', a):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'to_bytes', b, a):
                self.inteq(s1, 'bytes written', self.num(s1, r), size)
                self.covered(s1, 'encoding', b, size, v)
                self.eq(s1, 'operand unchanged', self.read(s1, a), v)
                g = s1.objs[b.obj].ghost
                if same:
                    c = a
                else:
                    s1, c, _ = self.view_new(s1, K, 'b')
                for s2, m in self.api(s1, 'from_bytes', c, b):
                    self.inteq(s2, 'bytes read', self.num(s2, m), size)
                    self.eq(s2, 'decoded element', self.read(s2, c), v)
                    self.ob('buffer unchanged', 'proved' if s2.objs[b.obj].ghost is g else 'failed')
                    for s3, k in self.api(s2, 'length_in_bytes', c):
                        self.inteq(s3, 'length of the decoded element', self.num(s3, k), size)

    def arbitrary(self):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        for s, n in self.api(st, 'length_in_bytes', a):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'from_bytes', a, b):
                self.inteq(s1, 'bytes read', self.num(s1, r), size)
                got = self.read(s1, a)
                self.ob('valid element', 'proved' if len(got) == len(v) else 'failed')
                # every byte counts: decoding the same bytes again gives the same element
                s1, c, _ = self.view_new(s1, K, 'b')
                for s2, r in self.api(s1, 'from_bytes', c, b):
                    self.eq(s2, 'decoding is a function of the bytes', self.read(s2, c), got)

    def sgn(self):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        st, b, _ = self.view_new(st, K, 'b', val=tuple(-x for x in v))
        for s, r in self.api(st, 'sign', a):
            for s1, q in self.api(s, 'sign', b):
                self.inteq(s1, 'sign of the negative', self.num(s1, q), -self.num(s1, r))
                z = S.zero_c(self.ex, s1, v)
                self.truth(s1, 'sign is zero exactly for zero', r, (not z) if isinstance(z, bool) else z3.Not(z))
                self.eq(s1, 'operand unchanged', self.read(s1, a), v)

    def body(self):
        for same in (False, True):
            self.case('round trip' + (' in place' if same else ''), self.roundtrip, same)
        if self.fixed:
            self.case('arbitrary bytes', self.arbitrary)
        self.case('sign', self.sgn)
        if self.leak:
            self.case('lifecycle', self.lifecycle)


class QuadEnc(RingEnc, u_quad.QuadUnit):
    def __init__(self, kind='fq', fixed=True, **k):
        super().__init__(kind=kind, **k)
        self.fixed = fixed
        self.name = 'byte encoding in the quadratic extension %s over a base of %s length' % (kind, 'fixed' if fixed else 'varying')
        self.assumptions.add("base encodings: equal elements alike, decoding inverts encoding")


class PolymodEnc(RingEnc, u_ext.PolymodUnit):
    def __init__(self, n=3, fixed=True, **k):
        super().__init__(n=n, **k)
        self.fixed = fixed
        self.name = 'byte encoding in the degree-%d polynomial extension over a base of %s length' % (n, 'fixed' if fixed else 'varying')
        self.assumptions.add("base encodings: equal elements alike, decoding inverts encoding")

    def params(self):
        return super().params()

    def body(self):
        RingEnc.body(self)


# ---------------------------------------------------------------- points

class Retry(LoopInv):
    """search loop whose invariant is `true`: all it writes is unknown at the header"""

    def havoc(self, L):
        pass

    def check(self, L, tag):
        pass


class CurveEnc(EncMixin, u_curve.CurveUnit):
    def __init__(self, fixed=True, **k):
        super().__init__(**k)
        self.fixed = fixed
        self.name = 'point encodings over a coordinate field of %s length' % ('fixed' if fixed else 'varying')
        self.assumptions.add("coordinate encodings: equal elements alike, decoding inverts encoding")
        self.assumptions.add("sign of a coordinate: sign(-a) = -sign(a), zero exactly for zero; the square roots of y^2 are y and -y")
        self.ex.contracts['element_pow_mpz'] = self.c_pow
        self.assumptions.add("element_pow_mpz gives the stated multiple (units of C05 over any group)")

    def c_pow(self, ex, st, args):
        n, a, z = args
        if ring.fdesc(st, ring.getcell(st, a, ring.LAY.e_field)) is not None:
            return NotImplemented
        outs = []
        k = gmp.mget(ex, st, z)
        for s, v in self.read_b(st, a):
            if v is None:
                x = y = None
            else:
                x, y = Poly.fresh('mulx'), Poly.fresh('muly')
            for s2, _ in ex.run_fn(s, FnPtr('curve_set_si'), [n, 1, 1]) if v is not None else self.ex.run_fn(s, FnPtr('v_set0'), [n]):
                if v is not None:
                    self.putxy(s2, n, x, y)
                s2.data['mulrec'] = tuple(s2.data.get('mulrec', ())) + ((v, k, (x, y)),)
                outs.append((s2, None))
        return outs

    def oncurve(self, st, name, v):
        x, y = v
        self.eq(st, name, y * y, x ** 3 + Poly.var('A') * x + Poly.var('B'))

    def full(self, kind, prev, same):
        st, K, S = self.setup()
        st, p, v = self.point(st, K, 'P', kind)
        for s, n in self.api(st, 'length_in_bytes', p):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'to_bytes', b, p):
                self.path_ok(s1)
                self.inteq(s1, 'bytes written', self.num(s1, r), size)
                self.covered(s1, 'encoding', b, size, v)
                for s9, w in self.read_b(s1, p):
                    self.eq(s9, 'operand unchanged', w, v)
                if same:
                    q = p
                else:
                    s1, q, _ = self.point(s1, K, 'Q', prev)
                for s2, m in self.api(s1, 'from_bytes', q, b):
                    self.path_ok(s2)
                    self.inteq(s2, 'bytes read', self.num(s2, m), size)
                    for s3, w in self.read_b(s2, q):
                        self.eq(s3, 'decoded point', w, v)

    def arbitrary(self, prev):
        st, K, S = self.setup()
        st, p, v = self.point(st, K, 'P', prev)
        for s, n in self.api(st, 'length_in_bytes', p):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'from_bytes', p, b):
                self.path_ok(s1)
                self.inteq(s1, 'bytes read', self.num(s1, r), size)
                for s2, w in self.read_b(s1, p):
                    if w is not None:
                        self.oncurve(s2, 'result on the curve', w)
                    else:
                        self.ob('result on the curve', 'proved')

    def short(self, form, prev):
        st, K, S = self.setup()
        st, p, v = self.point(st, K, 'P', 'P')
        for s, n in self.api(st, 'length_in_bytes_' + form, p):
            size = self.num(s, n)
            b = self.buffer(s, size)
            for s1, r in self.api(s, 'to_bytes_' + form, b, p):
                self.inteq(s1, 'bytes written', self.num(s1, r), size)
                self.covered(s1, 'encoding', b, size, v)
                s1, q, _ = self.point(s1, K, 'Q', prev)
                s1.data['knownroots'] = ((v[0] ** 3 + Poly.var('A') * v[0] + Poly.var('B'), v[1]),)
                for s2, m in self.api(s1, 'from_bytes_' + form, q, b):
                    self.path_ok(s2)
                    self.inteq(s2, 'bytes read', self.num(s2, m), size)
                    for s3, w in self.read_b(s2, q):
                        if w is None:
                            self.ob('decoded point', 'refuted', 'O')
                            continue
                        c = S.base.zero_c(self.ex, s3, v[1])
                        for s4, _ in (self.ex.branch(s3, c) if not isinstance(c, bool) else [(s3, c)]):
                            self.eq(s4, 'abscissa', w[0], v[0])
                            if form == 'x_only':
                                self.eq(s4, 'ordinate up to sign', w[1] * w[1], v[1] * v[1])
                            else:
                                self.eq(s4, 'ordinate', w[1], v[1])

    def member(self, op, cof, prev):
        """random / from_hash: the cofactor multiple of a point on the curve"""
        self.ex.loopspecs = {}
        Retry(self, 'curve_from_hash', 0)
        Retry(self, 'curve_random_no_cofac_solvefory', 0)
        ex = self.ex
        st, K, S = self.setup2(cof)
        st, p, v = self.point(st, K, 'P', prev)
        args = []
        if op == 'from_hash':
            n = Poly.var('hlen')
            ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 20))
            args = [self.buffer(st, n), SI(32, n, 0, 1 << 20)]
        st.data['mulrec'] = ()
        for s, _ in self.api(st, op, p, *args):
            self.path_ok(s)
            rec = s.data.get('mulrec', ())
            for s1, w in self.read_b(s, p):
                if cof:
                    hit = [r for r in rec if r[2] == (w if w is not None else (None, None)) and r[1] == Poly.var('h')]
                    self.ob('a multiple by the cofactor', 'proved' if hit else 'failed', '' if hit else repr((rec, w))[:200])
                    base = hit[-1][0] if hit else None
                else:
                    base = w
                    if w is None:
                        self.ob('finite before clearing the cofactor', 'failed')
                if base is not None:
                    self.oncurve(s1, 'point found is on the curve', base)

    def setup2(self, cof):
        """curve with (or without) a cofactor"""
        def go():
            ex, st = self.ex, State()
            F = ring.Base('F')
            fp = ring.mk_field(ex, st, F)
            a = ring.new_elem(ex, st, F, Poly.var('A'))
            b = ring.new_elem(ex, st, F, Poly.var('B'))
            z = st.alloc(16, 'heap', 'order')
            gmp.minit(ex, st, z, 7)
            h = 0
            if cof:
                h = st.alloc(16, 'heap', 'cofac')
                gmp.minit(ex, st, h, Poly.var('h'))
                ex.assume(st, to_z3(Poly.var('h')) >= 1)
            K = st.alloc(ring.LAY.size, 'heap', 'K')
            outs = self.fn(st, 'field_init_curve_ab', K, a, b, z, h)
            return outs[0][0], K, ring.Curve(F, Poly.var('A'), Poly.var('B'))
        return self.with_base(go)

    def rnd(self, cof):
        """curve_random_pointmul: a multiple of the generator"""
        ex = self.ex
        self.ex.loopspecs = {}
        Retry(self, 'curve_random_no_cofac_solvefory', 0)
        st, K, S = self.setup2(cof)
        gen = st.data.get('mulrec', ())
        st, p, v = self.point(st, K, 'P', 'P')
        g = st.alloc(ring.LAY.e_size, 'heap', 'g')
        for s, _ in self.api(st, 'random', p):
            self.path_ok(s)
            rec = s.data.get('mulrec', ())[len(gen):]
            for s1, w in self.read_b(s, p):
                hit = [r for r in rec if r[2] == (w if w is not None else (None, None))]
                self.ob('a multiple of a point', 'proved' if hit else 'failed', '' if hit else repr((rec, w))[:200])
                if not hit:
                    continue
                base = hit[-1][0]
                if base is None:
                    continue
                if cof:
                    h2 = [r for r in gen if r[2] == base and r[1] == Poly.var('h')]
                    self.ob('the point is the cofactor multiple of one', 'proved' if h2 else 'failed')
                    base = h2[-1][0] if h2 else None
                if base is not None:
                    self.oncurve(s1, 'found on the curve', base)

    def body(self):
        for kind in 'PO':
            for prev in 'PO':
                self.case('full %s into %s' % (kind, prev), self.full, kind, prev, False)
            self.case('full %s in place' % kind, self.full, kind, 'P', True)
        for prev in 'PO':
            if self.fixed:
                self.case('arbitrary bytes into ' + prev, self.arbitrary, prev)
            for form in ('compressed', 'x_only'):
                self.case('%s into %s' % (form, prev), self.short, form, prev)
            for cof in (False, True):
                self.case('from_hash %s cofactor, into %s' % ('with' if cof else 'no', prev), self.member, 'from_hash', cof, prev)
        for cof in (False, True):
            self.case('random %s cofactor' % ('with' if cof else 'no'), self.rnd, cof)


# ---------------------------------------------------------------- prime fields

class FpEnc(EncMixin):
    """bytes and integers against the residue; R: what the stored form of 1 is"""
    R = P(1)

    def setup(self):
        return super(EncMixin, self).setup()

    def stored(self, st, name, got, want):
        """got: stored form (naive: the residue itself)"""
        if isinstance(self, u_fp.FpRepUnit):
            self.cong(st, name, got, want, canonical=False)
            self.form(st, got)
        else:
            self.cong(st, name, got, want)

    def enc(self, kind, prev):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kind == '0'):
                for st1, b, vb in ([(st, a, va)] if prev == 'same' else self.elem(st, K, 'b', stale=prev == '0')):
                    for s, n in self.api(st1, 'length_in_bytes', a):
                        size = self.num(s, n)
                        d = self.buffer(s, size)
                        for s1, r in self.api(s, 'to_bytes', d, a):
                            self.inteq(s1, 'bytes written', self.num(s1, r), size)
                            N = s1.objs[d.obj].ghost.number(ex, s1, P(0), size)
                            if N is None:
                                self.ob('bytes filled with the number', 'failed', repr(s1.objs[d.obj].ghost.segs)[:300])
                                continue
                            ok = self.cong(s1, 'number in the bytes', N * self.R, va, canonical=False)
                            if ok and not va.is_zero() and ex.check(s1, [to_z3(va) <= 0]) == z3.unsat:
                                # N R = V mod p with 0 < V < p: N is not zero
                                ex.assume(s1, to_z3(N) != 0)
                                if ex.check(s1) == z3.unsat:
                                    continue
                            rr = ex.check(s1, [z3.Or(to_z3(N) < 0, to_z3(N) >= to_z3(p))])
                            self.ob('number canonical', 'proved' if rr == z3.unsat else 'unknown', repr(N)[:200])
                            if prev != 'same':
                                for s9, v9 in self.value(s1, a):
                                    self.cong(s9, 'operand unchanged', v9, va, canonical=False)
                            for s2, m in self.api(s1, 'from_bytes', b, d):
                                self.inteq(s2, 'bytes read', self.num(s2, m), size)
                                for s3, w in self.value(s2, b):
                                    if w.is_zero() and self.absurd(s3, va, p):
                                        continue
                                    self.stored(s3, 'decoded element', w, va)

    def arb(self, prev):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, b, vb in self.elem(st0.fork(), K, 'b', stale=prev == '0'):
                for s, n in self.api(st, 'length_in_bytes', b):
                    size = self.num(s, n)
                    d = self.buffer(s, size)
                    N = s.objs[d.obj].ghost.get_num(ex, s, d, size)
                    for s2, m in self.api(s, 'from_bytes', b, d):
                        self.inteq(s2, 'bytes read', self.num(s2, m), size)
                        for s3, w in self.value(s2, b):
                            if w.is_zero() and self.absurd(s3, ex.divmod(s3, N, p)[1], p):
                                continue
                            self.stored(s3, 'decoded element', w, N * self.R)

    def sgn(self, kind):
        """sign(-a) = -sign(a), zero exactly for zero"""
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kind == '0'):
                b = st.alloc(ring.LAY.e_size, 'heap', 'b')
                for s0, _ in self.api(st, 'init', b, K):
                    for s1, _ in self.api(s0, 'neg', b, a):
                        for s2, r in self.api(s1, 'sign', a):
                            for s3, q in self.api(s2, 'sign', b):
                                if not self.opposite(s3, p):
                                    continue
                                self.inteq(s3, 'sign of the negative', self.num(s3, q), -self.num(s3, r))
                                for s4, z in self.api(s3, 'is0', a):
                                    c = ex.cond_of(s4, z)
                                    self.truth(s4, 'sign is zero exactly for zero', r, (not c) if isinstance(c, bool) else z3.Not(c))

    def absurd(self, st, v, p):
        """the path has a remainder 0 of something congruent to v times a unit, yet 0 < v < p, p prime"""
        ex = self.ex
        if self.canary or ex.check(st, [z3.Or(to_z3(v) <= 0, to_z3(v) >= to_z3(p))]) != z3.unsat:
            return False
        for (vk, mk), (q, rem) in list(st.data.get('divs', {}).items()):
            if mk == p.key() and ex.check(st, [to_z3(rem) != 0]) == z3.unsat:
                x = rem + q * p
                if self.prove_cong(st, x - v, p) or self.prove_cong(st, x - v * self.R, p):
                    return True
        return False

    def opposite(self, st, p):
        """two residues whose sum is shown to be divisible by p add up to 0 or p"""
        cs = [c for c, t, _ in st.data.get('montfacts', {}).values()]
        for i, c in enumerate(cs):
            for d in cs[i + 1:]:
                rng = z3.And(to_z3(c) >= 0, to_z3(d) >= 0, to_z3(c) < to_z3(p), to_z3(d) < to_z3(p))
                if self.ex.check(st, [z3.Not(rng)]) == z3.unsat and self.prove_cong(st, c + d, p):
                    self.ex.assume(st, z3.Or(to_z3(c + d) == 0, to_z3(c + d) == to_z3(p)))
        return self.ex.check(st) != z3.unsat

    def ints(self, op, kind):
        self.nul(op, kind == '0')

    def body(self):
        for k in 'a0':
            for prev in ('b', '0', 'same'):
                self.case('round trip %s into %s' % (k, prev), self.enc, k, prev)
            self.case('arbitrary bytes into ' + k, self.arb, k)
            self.case('sign ' + k, self.sgn, k)
            for op in ('to_mpz', 'set_mpz', 'set_si'):
                if op != 'to_mpz' or isinstance(self, u_fp.FpRepUnit):
                    self.case('%s %s' % (op, k), self.ints, op, k) if isinstance(self, u_fp.FpRepUnit) else None
        if not isinstance(self, u_fp.FpRepUnit):
            for op in ('set_si', 'set_mpz'):
                for k in (False, True):
                    self.case(op + (' into zero' if k else ''), self.nul, op, k)


class FpEncUnit(FpEnc, u_fp.FpUnit):
    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'bytes and integers of ' + self.name


class FpRepEncUnit(FpEnc, u_fp.FpRepUnit):
    def __init__(self, **k):
        u_fp.FpRepUnit.__init__(self, **k)
        self.name = 'bytes and integers of ' + self.name
