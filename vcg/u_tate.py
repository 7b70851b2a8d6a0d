"""Final powering: Lucas ladders and Frobenius formulas, and the functions that put Miller
loop and powering together (cc_pairing, f_pairing, e_pairing, ...)."""
import z3
from . import ring, gmp
from .poly import Poly, P
from .exec import State, Ptr, FnPtr, SI, to_z3
from .ir import Unsupported
from .unit import *
from .loops import LoopInv
from .u_miller import BitUnit, Mul, Formal, sym, flat, conj, conj_neg, MillerUnit
from .u_miller import heap


class LucasLoop(LoopInv):
    """v0 = V_n, v1 = V_(n+1) with n = cofactor >> (j + 1) and V_n the trace of in^n"""

    def state(self, L):
        return L.ex.load(L.st, L.ptr('v0'), ring.PtrT(), None)

    def havoc(self, L):
        u, st = self.unit, L.st
        x, t, j = Poly.fresh('x'), Poly.fresh('u'), Poly.fresh('j')
        st.data['rules'] = list(st.data.get('rules', ())) + [(next(iter(x.vars())), 2, P(1) + u.nqr * t * t * u.b * u.b)]
        self.put(L, 'v0', x * 2)
        self.put(L, 'v1', (x * u.a + u.nqr * t * u.b * u.b) * 2)
        L.set_int('j', j, 0, 1 << 62, 64)
        L.assume(to_z3(j) <= to_z3(u.bits) - 1)
        st.data['lucas'] = (x, t, j)
        st.data['bit'] = ()

    def put(self, L, nm, v):
        ring.put(L.ex, L.st, L.arg(nm), v)

    def check(self, L, tag):
        u, st = self.unit, L.st
        v0, v1 = (ring.get(L.ex, st, L.arg(n)) for n in ('v0', 'v1'))
        j = L.int('j', 64, False)
        if tag == 'entry':
            u.eq(st, 'V_0 (entry)', v0, P(2))
            u.eq(st, 'V_1 (entry)', v1, u.a * 2)
            u.holds(st, 'starts at the leading bit', to_z3(j) == to_z3(u.bits) - 1)
            return
        x, t, j0 = st.data['lucas']
        u.holds(st, 'j goes down by one', to_z3(j) == to_z3(j0) - 1)
        b = u.bit(st, j0)
        if b is None:
            u.ob('bit of the cofactor looked at', 'failed', 'no test of bit j on this path')
            return
        x, t = u.step(x, t, b)
        u.eq(st, 'v0 is V_(2n+%d)' % b, v0, x * 2)
        u.eq(st, 'v1 is V_(2n+%d)' % (b + 1), v1, (x * u.a + u.nqr * t * u.b * u.b) * 2)


class LBase(ring.Base):
    """division by 0 gives some element: the product with 0 that follows does not depend on it"""

    def s_div(self, ex, st, n, a, b):
        x, y = ring.get(ex, st, a), ring.get(ex, st, b)
        c = self.zero_c(ex, st, y)
        outs = []
        for s, z in ex.branch(st, c):
            ring.put(ex, s, n, self.fresh(s, 'any') if z else x * self.inv(ex, s, y))
            outs.append((s, None))
        return outs


class LucasUnit(BitUnit):
    name = 'Lucas ladders'
    odd = None

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions = {"mpz_tstbit and mpz_sizeinbase give the binary digits of the cofactor", "V_n = z^n + z^-n for z of norm 1 (mathematics)", "element_div by 0 returns some element of the field"}

    def step(self, x, t, b):
        """coordinates of z^(2n), z^(2n+1) given z^n = (x, t in1)"""
        nb = self.nqr * self.b * self.b
        x2, t2 = x * x + nb * t * t, x * t * 2
        if not b:
            return x2, t2
        return x2 * self.a + nb * t2, x2 + t2 * self.a

    def run1(self, src, fn, parity):
        self.src = src
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        self.rv, self.bits = Poly.var('cofactor'), Poly.var('bits')
        ex.assume(st, z3.And(to_z3(self.bits) >= 1, to_z3(self.bits) < 1 << 40))
        R = LBase('R')
        ring.mk_field(ex, st, R)
        self.nqr, self.a, self.b = Poly.var('nqr'), Poly.var('in0'), Poly.var('in1')
        st.nonzeros.append(self.nqr)
        st.data['rules'] = [(next(iter(self.a.vars())), 2, P(1) + self.nqr * self.b * self.b)]
        F = ring.Pair(R, self.nqr, 'F2')
        ring.mk_field(ex, st, F)
        LucasLoop(self, fn, 0)
        out = ring.new_elem(ex, st, F, None)
        inp = ring.new_elem(ex, st, F, (self.a, self.b))
        z = self.rz(st)
        args = [out, inp] + ([ring.new_elem(ex, st, F, None)] if fn == 'lucas_odd' else []) + [z]
        hp = heap(st, args)
        n = 0
        for s, _ in self.fn(st, fn, *args, mod=src):
            n += 1
            if not self.path_ok(s):
                continue
            got = ring.get(ex, s, out)
            if 'lucas' not in s.data:
                # short cut for 1
                for c, w in zip(got, (P(1), P(0))):
                    self.eq(s, '1 to any power is 1', c, w)
                self.eq(s, 'short cut taken for 1 only', (self.a, self.b), (P(1), P(0)))
            else:
                x, t, j = s.data['lucas']
                self.holds(s, 'every bit of the cofactor was used', to_z3(j) == 0)
                x, t = self.step(x, t, parity)
                self.eq(s, 'result is in^(2n+%d)' % parity, got, (x, t * self.b))
            self.eq(s, 'cofactor unchanged', gmp.mget(ex, s, z), self.rv)
            self.no_leak(s, hp, None, fn)
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    def body(self):
        self.case('type a: even cofactor', self.run1, 'ecc/a_param.c', 'lucas_odd', 0)
        self.case('type d: odd cofactor', self.run1, 'ecc/d_param.c', 'lucas_even', 1)
        self.case('type g: odd cofactor', self.run1, 'ecc/g_param.c', 'lucas_even', 1)


# ---------------------------------------------------------------- powering by the easy part

def vneg(x):
    return tuple(vneg(y) for y in x) if isinstance(x, tuple) else P(0) - x


class TateUnit(BitUnit):
    """the value handed to the Lucas ladder (or the plain power) is u^e for the stated easy exponent e"""
    name = 'final powering'

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions = {"q-power Frobenius: x -> x^q is the ring map that fixes the base field, sends the generator X to X^q (the stored xpowq, xpowq2, ...) and sqrt(nqr) to -sqrt(nqr)",
                            "(q^3-1)(q+1) = q^4+q^3-q-1, (q^5-1)(q+1) = q^6+q^5-q-1 and (q^6-1)(q^2+1) = q^8+q^6-q^2-1 with phi_k(q) the rest of q^k-1 (mathematics)",
                            "the Miller value is not 0"}
        C = self.ex.contracts
        C['lucas_odd'] = self.c_lucas
        C['lucas_even'] = self.c_lucas
        C['polymod_const_mul'] = self.c_const_mul
        self.assumptions.add("polymod_const_mul(r, a, b) sets r to a b with a in the base field (contract proved under C03 for the polymod slots it is built on)")

    def c_const_mul(self, ex, st, a):
        r, x, y = a
        v = ring.get(ex, st, x)
        D = ring.edesc(st, r)
        ring.put(ex, st, r, D.scal(v, ring.get(ex, st, y)))

    def c_lucas(self, ex, st, a):
        out, inp, z = a[0], a[1], a[-1]
        self.eq(st, 'ladder uses the stated cofactor', gmp.mget(ex, st, z), Poly.var('phikonr'))
        if len({p.obj for p in a[:-1]}) != len(a) - 1:
            raise Unsupported("ladder called with equal operands")
        v = ring.get(ex, st, inp)
        if not isinstance(v, Formal):
            raise Unsupported("coordinates passed to the ladder")
        st.data['tate'] = v
        ring.put(ex, st, out, sym('LUCAS'))
        st.data['lucas'] = ring.get(ex, st, out)
        for t in a[1:-1]:
            ring.put(ex, st, t, sym('clobbered'))

    def same(self, st, name, got, num, den):
        """got = product of num over product of den, exactly; num, den lists of coordinates"""
        if self.leak:
            return
        D = self.F2
        if self.canary:
            num = num[1:]
        self.canary_depth += 1
        try:
            r = got
            for v in num:
                r = r.mul(D.val(v).pow(-1))
            for v in den:
                r = r.mul(D.val(v))
            # cancel factors equal modulo the rules
            fs = [list(x) for x in r.f]
            for i, (k, x, e) in enumerate(fs):
                for j in range(i):
                    k2, x2, e2 = fs[j]
                    if k == k2 == 'val' and not e2.is_zero() and all(ring.prove_zero(st, p - q) for p, q in zip(flat(x), flat(x2))):
                        fs[j][2], fs[i][2] = e2 + e, P(0)
                        break
            r = Formal([tuple(x) for x in fs])
            if not r.f:
                self.ob(name, 'proved')
            elif self.differ(st, r, D, True):
                self.ob(name, 'refuted', 'computed %r' % got)
            else:
                n = Formal([(k, x, e) for k, x, e in r.f if e.is_const() and e.const_value() > 0])
                d = Formal([(k, x, P(0) - e) for k, x, e in r.f if e.is_const() and e.const_value() < 0])
                if len(n.f) + len(d.f) == len(r.f):
                    a, b = D.concrete(n), D.concrete(d)
                    if all(ring.prove_zero(st, p - q) for p, q in zip(flat(a), flat(b))):
                        self.ob(name, 'proved')
                        return
                self.ob(name, 'unknown', 'computed %r' % got)
        finally:
            self.canary_depth -= 1

    def start(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        self.Fq = ring.Base('Fq')
        return st

    def finish(self, st, fn, out, args, src, num, den, result='lucas', key='tate'):
        hp = heap(st, [x for x in args if isinstance(x, Ptr)])
        n = 0
        for s, _ in self.fn(st, fn, *args, mod=src):
            n += 1
            if not self.path_ok(s):
                continue
            got = ring.get(self.ex, s, out)
            if result == 'lucas':
                v = s.data.get('tate')
                if v is None:
                    self.ob('ladder used', 'unknown', 'no call of the ladder')
                    continue
                self.same(s, 'value powered is u to the easy exponent', v, num, den)
                ok = got == s.data['lucas']
                if self.canary:
                    ok = not ok
                self.canary_depth += 1
                self.ob('result is what the ladder gives', 'proved' if ok else 'failed', repr(got))
                self.canary_depth -= 1
            else:
                h = result + (1 if self.canary else 0)
                fs = []
                self.canary_depth += 1
                for k, x, e in got.f:
                    q = e.exact_div(h)
                    if q is None:
                        self.ob('result is a power by the stated exponent', 'failed', repr(got))
                        break
                    fs.append((k, x, q))
                self.canary_depth -= 1
                if len(fs) == len(got.f):
                    self.same(s, 'value powered is u to the easy exponent', Formal(fs), num, den)
            self.no_leak(s, hp, None, fn)
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    # ---- type A
    def a_fields(self, st):
        ex = self.ex
        ring.mk_field(ex, st, self.Fq)
        self.F2i = ring.Pair(self.Fq, -1, 'Fq2')
        self.F2 = Mul(self.F2i)
        ring.mk_field(ex, st, self.F2)

    def z(self, st, nm):
        z = st.alloc(16, 'heap', nm)
        gmp.minit(self.ex, st, z)
        gmp.mset(self.ex, st, z, Poly.var(nm))
        return z

    def run_a(self):
        ex, st = self.ex, self.start()
        self.a_fields(st)
        u = (Poly.var('u0'), Poly.var('u1'))
        out, temp = (ring.new_elem(ex, st, self.F2, None) for _ in range(2))
        inp = ring.new_elem(ex, st, self.F2, u)
        self.finish(st, 'a_tateexp', out, [out, inp, temp, self.z(st, 'phikonr')], 'ecc/a_param.c', [conj(u)], [u])

    # ---- types D and G
    def dg(self, src, tag, fn, d, k=None, alias=True):
        ex, st = self.ex, self.start()
        self.src = src
        o = self.off(tag)
        data = st.alloc(max(o.values()) + 4096, 'heap', 'data')
        ring.embed_field(st, Ptr(data.obj, o['Fq']), self.Fq)
        self.Fqd = ring.PolyMod(self.Fq, [Poly.var('c%d' % i) for i in range(d)], 'Fqd')
        ring.embed_field(st, Ptr(data.obj, o['Fqd']), self.Fqd)
        self.F2i = ring.Pair(self.Fqd, Poly.var('nqr'), 'Fqk')
        self.F2 = Mul(self.F2i)
        ring.embed_field(st, Ptr(data.obj, o['Fqk']), self.F2)
        xs = {}
        for i in range(1, d):
            nm = 'xpowq' + (str(i) if i > 1 else '')
            xs[i] = tuple(Poly.var('%s_%d' % (nm, j)) for j in range(d))
            if nm in o:
                ring.embed_elem(ex, st, Ptr(data.obj, o[nm]), self.Fqd, xs[i])
        st.wobj(data.obj).mpz = dict(st.objs[data.obj].mpz or {})
        if 'tateexp' in o:
            st.wobj(data.obj).mpz[o['tateexp']] = Poly.var('tateexp')
        if 'k' in o:
            ring.setcell(st, data, o['k'], k, 4)
        po = self.off('pairing_s')
        pr = st.alloc(po['data'] + 8, 'heap', 'pairing')
        ring.setcell(st, pr, po['data'], data)
        st.wobj(pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: Poly.var('r')}
        u = tuple(tuple(Poly.var('u%d_%d' % (i, j)) for j in range(d)) for i in range(2))
        inp = ring.new_elem(ex, st, self.F2, u)
        out = inp if alias else ring.new_elem(ex, st, self.F2, None)

        def frob(v):
            r = (v[0],) + (P(0),) * (d - 1)
            for i in range(1, d):
                r = self.Fqd.add(r, self.Fqd.scal(v[i], xs[i]))
            return r
        re, im = frob(u[0]), frob(u[1])
        if k is not None and k != 2 * d:
            raise Unsupported("degree")
        if k in (None, 6):
            # u^(q^(d+1)) u^(q^d) / (u^q u)
            self.finish(st, fn, out, [out, inp, pr], src, [(re, im), conj(u)], [(re, vneg(im)), u])
        else:
            self.finish(st, fn, out, [out, inp, pr], src, [u], [], Poly.var('tateexp'))

    # ---- type F
    def run_f(self):
        ex, st = self.ex, self.start()
        self.src = 'ecc/f_param.c'
        o = self.off('f_pairing_data_ptr')
        data = st.alloc(max(o.values()) + 4096, 'heap', 'data')
        ring.embed_field(st, Ptr(data.obj, o['Fq']), self.Fq)
        Fq2 = ring.Pair(self.Fq, Poly.var('beta'), 'Fq2')
        ring.embed_field(st, Ptr(data.obj, o['Fq2']), Fq2)
        z = (P(0), P(0))
        F12 = ring.PolyMod(Fq2, [(Poly.var('alpha0'), Poly.var('alpha1')), z, z, z, z, z], 'Fq12')
        self.F2 = Mul(F12)
        ring.embed_field(st, Ptr(data.obj, o['Fq12']), self.F2)
        e = {}
        for i in (2, 6, 8):
            e[i] = (Poly.var('e%d_0' % i), Poly.var('e%d_1' % i))
            ring.embed_elem(ex, st, Ptr(data.obj, o['xpowq%d' % i]), Fq2, e[i])
        st.wobj(data.obj).mpz = dict(st.objs[data.obj].mpz or {})
        st.wobj(data.obj).mpz[o['tateexp']] = Poly.var('tateexp')
        po = self.off('pairing_s')
        pr = st.alloc(po['data'] + 8, 'heap', 'pairing')
        ring.setcell(st, pr, po['data'], data)
        ring.setcell(st, self.F2.ptr, ring.LAY.off['pairing'], pr)
        u = tuple((Poly.var('u%d_0' % i), Poly.var('u%d_1' % i)) for i in range(6))
        out = ring.new_elem(ex, st, self.F2, u)

        def frob(i):
            r, p = [], Fq2.one()
            for j in range(6):
                r.append(Fq2.mul(u[j], p))
                p = Fq2.mul(p, e[i])
            return tuple(r)
        self.finish(st, 'f_tateexp', out, [out], self.src, [frob(8), frob(6)], [frob(2), u], Poly.var('tateexp'))

    def body(self):
        self.case('type a: a_tateexp', self.run_a)
        for al in (True, False):
            self.case('type d: cc_tatepower, k = 6, %s' % ('in place' if al else 'out of place'), self.dg, 'ecc/d_param.c', 'pptr', 'cc_tatepower', 3, 6, al)
            self.case('type d: cc_tatepower, k = 10, %s' % ('in place' if al else 'out of place'), self.dg, 'ecc/d_param.c', 'pptr', 'cc_tatepower', 5, 10, al)
            self.case('type g: tatepower10, %s' % ('in place' if al else 'out of place'), self.dg, 'ecc/g_param.c', 'mnt_pairing_data_ptr', 'tatepower10', 5, None, al)
        self.case('type f: f_tateexp', self.run_f)


# ---------------------------------------------------------------- pairings put together

class QMul(Mul):
    """formal products with symbolic answers to `is this 1?'"""

    def canon(self, v):
        f = sorted((k, str(x), e) for k, x, e in v.f)
        f = [(k, x, e) for k, x, e in f]
        if f and f[0][2].is_const() and f[0][2].const_value() < 0:
            f = [(k, x, P(0) - e) for k, x, e in f]
        return tuple((k, x, str(e)) for k, x, e in f)

    def one_c(self, st, v):
        if not v.f:
            return True
        return z3.Bool('is1[%s]' % (self.canon(v),))

    def s_is1(self, ex, st, a):
        return ring.bool_result(ex, st, self.one_c(st, ring.get(ex, st, a)))

    def s_cmp(self, ex, st, a, b):
        return ring.cmp_result(ex, st, self.one_c(st, ring.get(ex, st, a).mul(ring.get(ex, st, b).pow(-1))))


class JoinUnit(BitUnit):
    """cc_pairing and its kin: which points go into the Miller function and what is done to its value"""
    name = 'pairing functions'

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions = {"the Miller functions and the final powering satisfy the contracts proved by the Miller loop and final powering units",
                            "twist: (x, y) -> (v^-1 x, v^-2 y sqrt v) for types D and G, (x, y) -> (-x/alpha X^4, -y/alpha X^3) for type F is an isomorphism onto the curve (mathematics)"}
        C = self.ex.contracts
        C['#miller'] = self.c_miller
        C['cc_millers_no_denom_affine'] = self.c_millers
        for nm in ('cc_tatepower', 'tatepower10'):
            C[nm] = self.c_tate
        C['f_tateexp'] = lambda ex, st, a: self.c_tate(ex, st, [a[0], a[0], None])
        C['a_tateexp'] = lambda ex, st, a: self.c_tate(ex, st, [a[0], a[1], None, a[3], a[2]])

    def table(self, st, kind, key):
        for k, kk, v in st.data.get('apps', ()):
            if k == kind and self.eqkey(st, kk, key):
                return v
        v = sym(kind)
        st.data['apps'] = tuple(st.data.get('apps', ())) + ((kind, key, v),)
        return v

    def eqkey(self, st, a, b):
        fa, fb = flat(a), flat(b)
        return len(fa) == len(fb) and all(ring.prove_zero(st, x - y) for x, y in zip(fa, fb))

    def c_miller(self, ex, st, a):
        if self.kind == 'e':
            res, p, q, r, d = a
            if d != self.data:
                raise Unsupported("other data")
            key = tuple(ring.get(ex, st, x) for x in (p, q, r))
        else:
            res, rz, p, x, y = a[:5]
            self.eq(st, 'Miller function gets r', gmp.mget(ex, st, rz), Poly.var('r'))
            key = tuple(ring.get(ex, st, x) for x in (p, x, y) + tuple(a[5:]))
        if any(k is None for k in key):
            self.ob('Miller function not given the identity', 'failed', 'identity passed')
            return
        ring.put(ex, st, res, self.table(st, 'M', key))

    def c_millers(self, ex, st, a):
        res, rz, p, x, y, n = a
        self.eq(st, 'Miller function gets r', gmp.mget(ex, st, rz), Poly.var('r'))
        if n != self.n:
            self.ob('number of pairs', 'failed', repr(n))
            return
        v = Formal()
        for j in range(n):
            key = tuple(ring.get(ex, st, Ptr(t.obj, t.off + j * ring.LAY.e_size)) for t in (p, x, y))
            if any(k is None for k in key):
                raise Unsupported("identity in a product")
            v = v.mul(self.table(st, 'M', key))
        ring.put(ex, st, res, v)

    def c_tate(self, ex, st, a):
        out, inp, pr = a[:3]
        if pr is not None and pr != self.pr:
            self.ob('powering with the same pairing', 'failed', '')
            return
        if len(a) > 3:
            self.eq(st, 'powering uses the stated cofactor', gmp.mget(ex, st, a[3]), Poly.var('phikonr'))
            if out == inp or a[4] in (out, inp):
                raise Unsupported("equal operands")
            ring.put(ex, st, a[4], sym('clobbered'))
        v = ring.get(ex, st, inp)
        # the powering is multiplicative
        r = Formal([('sym', 'T(%s)' % x if k == 'sym' else x, e) for k, x, e in v.f])
        if any(k != 'sym' for k, _, _ in v.f):
            raise Unsupported("powering of coordinates")
        if inp != out:
            ring.put(ex, st, inp, sym('clobbered'))
        ring.put(ex, st, out, r)

    def T(self, v):
        return Formal([('sym', 'T(%s)' % x, e) for k, x, e in v.f])

    def same(self, name, got, want):
        ok = isinstance(got, Formal) and self.F2.canon(got) == self.F2.canon(want) and not (got.f and self.F2.canon(got) == self.F2.canon(want) and str(got.f[0][2]) != str(dict(((k, x), e) for k, x, e in want.f).get((got.f[0][0], got.f[0][1]))))
        if self.canary:
            ok = not ok
        self.canary_depth += 1
        self.ob(name, 'proved' if ok else 'failed', 'computed %r, wanted %r' % (got, want))
        self.canary_depth -= 1

    # ---- set up
    def setup(self, src, tag, kind, d):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        self.src, self.kind = src, kind
        o = self.off(tag)
        data = st.alloc(max(o.values()) + 4096, 'heap', 'data')
        self.data = data
        self.Fq = ring.Base('Fq')
        emb = lambda nm, D: ring.embed_field(st, Ptr(data.obj, o[nm]), D)
        emb('Fq', self.Fq)
        self.A, self.B = Poly.var('A'), Poly.var('B')
        from .u_miller import SCurve
        self.E = SCurve(self.Fq, self.A, self.B)
        self.E.mk = lambda st: self.pt(st, 's')
        emb('Eq', self.E)
        po = self.off('pairing_s')
        pr = st.alloc(max(po.values()) + 64, 'heap', 'pairing')
        ring.setcell(st, pr, po['data'], data)
        st.wobj(pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: Poly.var('r')}
        self.pr = pr
        fn = '#miller'
        if kind in 'dg':
            self.Fqd = ring.PolyMod(self.Fq, [Poly.var('c%d' % i) for i in range(d)], 'Fqd')
            emb('Fqd', self.Fqd)
            self.F2 = QMul(ring.Pair(self.Fqd, Poly.var('nqr'), 'Fqk'))
            emb('Fqk', self.F2)
            self.inv = {nm: tuple(Poly.var('%s_%d' % (nm, i)) for i in range(d)) for nm in ('nqrinv', 'nqrinv2')}
            for nm, v in self.inv.items():
                ring.embed_elem(ex, st, Ptr(data.obj, o[nm]), self.Fqd, v)
            self.G2 = ring.Curve(self.Fqd, self.Fqd.zero(), self.Fqd.zero())
            emb('Etwist', self.G2)
            g = ex.glob(st, modules()[src], 'cc_miller_no_denom_fn')
            ring.setcell(st, g, 0, FnPtr('#miller'))
        elif kind == 'f':
            self.Fq2 = ring.Pair(self.Fq, Poly.var('beta'), 'Fq2')
            emb('Fq2', self.Fq2)
            z = (P(0), P(0))
            self.F2 = QMul(ring.PolyMod(self.Fq2, [(Poly.var('alpha0'), Poly.var('alpha1')), z, z, z, z, z], 'Fq12'))
            emb('Fq12', self.F2)
            for nm in ('negalpha', 'negalphainv'):
                ring.embed_elem(ex, st, Ptr(data.obj, o[nm]), self.Fq2, (Poly.var(nm + '0'), Poly.var(nm + '1')))
            self.G2 = ring.Curve(self.Fq2, self.Fq2.zero(), self.Fq2.zero())
            emb('Etwist', self.G2)
            ex.contracts['cc_miller_no_denom'] = self.c_miller
        elif kind == 'e':
            self.F2 = QMul(self.Fq)
            ring.mk_field(ex, st, self.F2)
            self.R = self.pt(st, 'r')
            ring.embed_elem(ex, st, Ptr(data.obj, o['R']), self.E, self.R)
            g = ex.glob(st, modules()[src], 'e_miller_fn')
            ring.setcell(st, g, 0, FnPtr('#miller'))
        return st

    def g2(self, st, nm):
        d = 2 if self.kind == 'f' else self.Fqd.n
        return tuple(tuple(Poly.fresh('%s%s' % (nm, c)) for _ in range(d)) for c in 'xy')

    def twist(self, q):
        if self.kind == 'f':
            m = (Poly.var('negalphainv0'), Poly.var('negalphainv1'))
            return self.Fq2.mul(q[0], m), self.Fq2.mul(q[1], m), (Poly.var('negalpha0'), Poly.var('negalpha1'))
        return self.Fqd.mul(q[0], self.inv['nqrinv']), self.Fqd.mul(q[1], self.inv['nqrinv2'])

    def done(self, st, fn, out, args, want, ins):
        ex = self.ex
        before = [ring.get(ex, st, x) for x in ins]
        hp = heap(st, [x for x in args if isinstance(x, Ptr)] + [self.F2.ptr])
        n = 0
        for s, rv in self.fn(st, fn, *args, mod=self.src):
            n += 1
            if not self.path_ok(s):
                continue
            want(s, ring.get(ex, s, out) if out is not None else None, rv)
            for x, v in zip(ins, before):
                g = ring.get(ex, s, x)
                if v is None:
                    self.ob('operand unchanged', 'proved' if (g is None) != self.canary else 'failed', '')
                else:
                    self.eq(s, 'operand unchanged', g, v)
            self.no_leak(s, hp, None, fn)
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    def pair1(self, src, tag, kind, d, fn):
        ex, st = self.ex, self.setup(src, tag, kind, d)
        p = self.pt(st, 'p')
        q = self.pt(st, 'q') if kind == 'e' else self.g2(st, 'q')
        a = ring.new_elem(ex, st, self.E, p)
        b = ring.new_elem(ex, st, self.E if kind == 'e' else self.G2, q)
        out = ring.new_elem(ex, st, self.F2, None)

        def want(s, got, rv):
            if kind == 'e':
                qr = self.E.sum(ex, s, q, self.R)[0][1]
                w = self.table(s, 'M', (p, qr, self.R)).pow(Poly.var('phikonr'))
            else:
                w = self.T(self.table(s, 'M', (p,) + self.twist(q)))
            self.same('result is the powered Miller value of (P, Q)', got, w)
        self.done(st, fn, out, [out, a, b, self.pr], want, [a, b])

    def pairn(self, src, tag, kind, d, fn, n):
        ex, st = self.ex, self.setup(src, tag, kind, d)
        self.n = n
        ps, qs = [self.pt(st, 'p') for _ in range(n)], [self.g2(st, 'q') for _ in range(n)]
        a = self.array(st, [ring.new_elem(ex, st, self.E, p) for p in ps])
        b = self.array(st, [ring.new_elem(ex, st, self.G2, q) for q in qs])
        out = ring.new_elem(ex, st, self.F2, None)

        def want(s, got, rv):
            w = Formal()
            for p, q in zip(ps, qs):
                w = w.mul(self.T(self.table(s, 'M', (p,) + self.twist(q))))
            self.same('result is the powered product of the Miller values', got, w)
        self.done(st, fn, out, [out, a, b, n, self.pr], want, [Ptr(x.obj, j * ring.LAY.e_size) for x in (a, b) for j in range(n)])

    def coddh(self, src, tag, kind, d, mask):
        ex, st = self.ex, self.setup(src, tag, kind, d)
        ps = [self.pt(st, 'p') if not mask >> i & 1 else None for i in range(2)]
        qs = [self.g2(st, 'q') if not mask >> (2 + i) & 1 else None for i in range(2)]
        es = [self.point(st, self.E, p) for p in ps] + [self.point(st, self.G2, q) for q in qs]

        def val(s, p, q):
            return Formal() if p is None or q is None else self.T(self.table(s, 'M', (p,) + self.twist(q)))

        def want(s, got, rv):
            # a, b, c, d: e(a, d) e(b, c)^(+-1) = 1
            t0, t1 = val(s, ps[0], qs[1]), val(s, ps[1], qs[0])
            c = [self.F2.one_c(s, t0.mul(t1.pow(k))) for k in (1, -1)]
            c = z3.Or(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in c])
            r = ex.as_u(s, rv, 32)
            self.holds(s, 'answer is 1 exactly if e(a,d) = e(b,c)^(+-1)', z3.And(z3.Or(to_z3(r) == 0, to_z3(r) == 1), (to_z3(r) == 1) == c))
        self.done(st, 'cc_is_almost_coddh', None, es + [self.pr], want, es)

    def point(self, st, E, v):
        e = ring.new_elem(self.ex, st, E, v if v is not None else (E.base.zero(), E.base.zero()))
        if v is None:
            ring.put(self.ex, st, e, None)
        return e

    def fpow(self, src, tag, kind, d, fn):
        ex, st = self.ex, self.setup(src, tag, kind, d) if kind != 'a' else self.setup_a(src)
        x = ring.new_elem(ex, st, self.F2, sym('u'))
        u = ring.get(ex, st, x)
        GT = st.alloc(ring.LAY.size, 'heap', 'GT')
        ring.setcell(st, GT, ring.LAY.off['pairing'], self.pr)
        e = st.alloc(ring.LAY.e_size, 'heap', 'gt element')
        ring.setcell(st, e, ring.LAY.e_field, GT)
        ring.setcell(st, e, ring.LAY.e_data, x)
        self.done(st, fn, x, [e], lambda s, got, rv: self.same('element is replaced by its final power', got, self.T(u)), [])

    def setup_a(self, src):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        self.src, self.kind = src, 'a'
        self.Fq = ring.Base('Fq')
        ring.mk_field(ex, st, self.Fq)
        self.F2 = QMul(ring.Pair(self.Fq, -1, 'Fq2'))
        ring.mk_field(ex, st, self.F2)
        po = self.off('pairing_s')
        self.pr = st.alloc(max(po.values()) + 64, 'heap', 'pairing')
        st.wobj(self.pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: Poly.var('r')}
        return st

    def body(self):
        D = ('ecc/d_param.c', 'pptr', 'd', 3)
        G = ('ecc/g_param.c', 'mnt_pairing_data_ptr', 'g', 5)
        F = ('ecc/f_param.c', 'f_pairing_data_ptr', 'f', 0)
        E = ('ecc/e_param.c', 'e_pairing_data_ptr', 'e', 0)
        for t, nm in ((D, 'cc_pairing'), (G, 'cc_pairing'), (F, 'f_pairing'), (E, 'e_pairing')):
            self.case('%s of type %s' % (nm, t[2]), self.pair1, *t, nm)
        for n in (1, 2, 3):
            self.case('product of %d, type d' % n, self.pairn, *D, 'cc_pairings_affine', n)
        for t in (D, G):
            for m in range(16):
                self.case('coddh of type %s, identities %d' % (t[2], m), self.coddh, *t, m)
        self.case('final power, type d', self.fpow, *D, 'cc_finalpow')
        self.case('final power, type g', self.fpow, *G, 'g_finalpow')
        self.case('final power, type a', self.fpow, 'ecc/a_param.c', '', 'a', 0, 'a_finalpow')
