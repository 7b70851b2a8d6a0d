"""Miller loops (C09, C10, C11).

The rules of Miller's algorithm, for a fixed point P of order r and an evaluation point Q:

    f_1 = 1                      (1P = P)
    f_2n = f_n^2 T(nP)           T(V)  = tangent at V, evaluated at Q
    f_(n+m) = f_n f_m L(nP, mP)  L(V,W) = line through V and W, evaluated at Q
    f_-n = 1 / f_n

all up to a factor in the subfield that the final powering sends to 1 (so verticals drop out).
A unit shows that the code computes f_N for the stated N by these rules: at every loop header the
point is nP and the accumulator is (a subfield multiple of) f_n, both arbitrary, and one way
round takes them to what the rules demand.  Values of the big field are formal products of
symbols and of concrete line values, so nothing is multiplied out."""
from .unit import *
from . import u_pow
from .loops import LoopInv
from .ir import IntT, PtrT


class Formal:
    """product of powers of symbols and of concrete elements"""

    def __init__(self, facs=()):
        self.f = tuple((k, x, P(e)) for k, x, e in facs if not P(e).is_zero())

    def mul(self, o):
        r = list(self.f)
        for k, x, e in o.f:
            for i, (k2, x2, e2) in enumerate(r):
                if k == k2 and x == x2:
                    r[i] = (k, x, e2 + e)
                    break
            else:
                r.append((k, x, e))
        return Formal(r)

    def pow(self, n):
        return Formal([(k, x, e * n) for k, x, e in self.f])

    def __eq__(self, o):
        return isinstance(o, Formal) and len(self.f) == len(o.f) and all(a == b for a, b in zip(self.f, o.f))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def havocked(self):
        return sym('junk')

    def __repr__(self):
        return ' '.join('%s^%r' % (x if k == 'sym' else '(..)', e) for k, x, e in self.f) or '1'


_n = [0]


def sym(nm):
    _n[0] += 1
    return Formal([('sym', '%s!%d' % (nm, _n[0]), 1)])


def flat(v):
    if isinstance(v, tuple):
        return [x for y in v for x in flat(y)]
    return [P(v)]


class Mul(ring.Desc):
    """field whose elements are handled as formal products; the coordinates are those of `inner`"""

    def __init__(self, inner):
        super().__init__(inner.kind, inner.name)
        self.inner = inner
        self.base = inner.base

    def new_data(self, st):
        d = self.inner.new_data(st)
        return d

    def leaves(self, st, d, desc=None):
        desc = desc or self.inner
        if isinstance(desc, ring.Base):
            return [d.obj]
        out = []
        for k in range(2 if isinstance(desc, ring.Pair) else desc.n):
            out += self.leaves(st, ring.getcell(st, desc.item(d, k), ring.LAY.e_data), desc.base)
        return out

    def read(self, ex, st, d):
        o = st.objs[d.obj]
        if o.freed:
            raise MemError("use of cleared element")
        if isinstance(o.ghost, Formal):
            if isinstance(self.inner, ring.Base):
                return o.ghost
            if any(st.objs[i].ghost is not None for i in self.leaves(st, d)):
                raise Unsupported("coordinates of a product written individually")
            return o.ghost
        return self.val(self.inner.read(ex, st, d))

    def val(self, t):
        if t == self.inner.one():
            return Formal()
        return Formal([('val', t, 1)])

    def write(self, ex, st, d, v):
        o = st.wobj(d.obj)
        if isinstance(self.inner, ring.Base):
            o.ghost = v if isinstance(v, Formal) else self.val(v)
            return
        if isinstance(v, Formal):
            if not v.f:
                v = self.inner.one()
            elif len(v.f) == 1 and v.f[0][0] == 'val' and v.f[0][2] == P(1):
                v = v.f[0][1]
            else:
                o.ghost = v
                for i in self.leaves(st, d):
                    st.wobj(i).ghost = None
                return
        o.ghost = None
        for i in self.leaves(st, d):
            st.wobj(i).ghost = P(0)
        self.inner.write(ex, st, d, v)

    def free_data(self, st, d):
        self.inner.free_data(st, d)

    # coordinates of a symbol, made on demand
    def coords(self, nm, desc=None):
        desc = desc or self.inner
        if isinstance(desc, ring.Base):
            return Poly.var(nm)
        return tuple(self.coords('%s_%d' % (nm, k), desc.base) for k in range(2 if isinstance(desc, ring.Pair) else desc.n))

    def concrete(self, v):
        r = self.inner.one()
        for k, x, e in v.f:
            if not e.is_const() or not 0 < int(e.const_value()) <= 4:
                raise Unsupported("coordinates of a quotient or a high power")
            for _ in range(int(e.const_value())):
                r = self.inner.mul(r, self.coords(x) if k == 'sym' else x)
        return r

    def materialise(self, ex, st, e):
        d = ring.getcell(st, e, ring.LAY.e_data)
        if isinstance(st.objs[d.obj].ghost, Formal):
            self.write(ex, st, d, self.concrete(self.read(ex, st, d)))
        return d

    def s_get_x(self, ex, st, e): return self.inner.item(self.materialise(ex, st, e), 0)
    def s_get_y(self, ex, st, e): return self.inner.item(self.materialise(ex, st, e), 1)

    def s_item(self, ex, st, e, i):
        d = self.materialise(ex, st, e)
        if not isinstance(i, int):
            raise Unsupported("symbolic item index")
        return self.inner.item(d, i % (1 << 32))

    def s_item_count(self, ex, st, e): return 2 if isinstance(self.inner, ring.Pair) else self.inner.n

    def one(self): return Formal()
    def zero(self): return self.inner.zero()

    def s_set0(self, ex, st, n): ring.put(ex, st, n, self.inner.zero())
    def s_mul(self, ex, st, n, a, b): ring.put(ex, st, n, ring.get(ex, st, a).mul(ring.get(ex, st, b)))
    def s_square(self, ex, st, n, a): ring.put(ex, st, n, ring.get(ex, st, a).pow(2))
    def s_invert(self, ex, st, n, a): ring.put(ex, st, n, ring.get(ex, st, a).pow(-1))
    def s_div(self, ex, st, n, a, b): ring.put(ex, st, n, ring.get(ex, st, a).mul(ring.get(ex, st, b).pow(-1)))
    def s_pow_mpz(self, ex, st, n, a, z): ring.put(ex, st, n, ring.get(ex, st, a).pow(gmp.mget(ex, st, z)))

    def _lin(self, ex, st, n, op, *a):
        ring.put(ex, st, n, op(*[self.concrete(ring.get(ex, st, x)) for x in a]))

    def s_add(self, ex, st, n, a, b): self._lin(ex, st, n, self.inner.add, a, b)
    def s_sub(self, ex, st, n, a, b): self._lin(ex, st, n, self.inner.sub, a, b)
    def s_neg(self, ex, st, n, a): self._lin(ex, st, n, lambda x: self.inner.scal(-1, x), a)
    def s_doub(self, ex, st, n, a): self._lin(ex, st, n, lambda x: self.inner.scal(2, x), a)

    def s_cmp(self, *a): raise Unsupported("comparison of formal products")
    s_is0 = s_is1 = s_cmp


class GCurve(ring.Curve):
    """group law away from the exceptional cases: P has odd prime order r and every multiple met
    on the way is neither 0 nor the negative (nor, for lines, equal) of the other operand"""

    def sum(self, ex, st, a, b):
        B = self.base
        if a is None or b is None:
            raise Unsupported("identity met in a Miller loop")
        if a == b:
            lam = B.mul(B.add(B.scal(3, B.mul(a[0], a[0])), self.a), B.inv(ex, st, B.scal(2, a[1])))
        else:
            lam = B.mul(B.sub(b[1], a[1]), B.inv(ex, st, B.sub(b[0], a[0])))
        x = B.sub(B.sub(B.mul(lam, lam), a[0]), b[0])
        return [(st, (x, B.sub(B.mul(lam, B.sub(a[0], x)), a[1])))]


def cancel(st, p):
    """value-preserving: d * inv(d) -> 1 for monomials d"""
    for s, d in st.data.get('inv', ()):
        if len(d.t) != 1:
            continue
        (m, c), = d.t.items()
        t, changed = {}, False
        for mm, cc in p.t.items():
            dd = dict(mm)
            while dd.get(s) and all(dd.get(v, 0) >= e for v, e in m):
                changed = True
                dd[s] -= 1
                for v, e in m:
                    dd[v] -= e
                cc = Fraction(cc) / c
                if cc.denominator == 1:
                    cc = cc.numerator
            k = tuple(sorted((v, e) for v, e in dd.items() if e))
            t[k] = t.get(k, 0) + cc
        if changed:
            p = Poly({k: v for k, v in t.items() if v})
    return p


class SCurve(ring.Curve):
    """the group law as a function symbol: sums of given points are named points"""

    def sum(self, ex, st, a, b):
        if a is None or b is None:
            raise Unsupported("identity met in a Miller loop")
        same = lambda p, q: p == q or all(ring.prove_zero(st, x - y) for x, y in zip(p, q))
        for x, y, r in st.data.get('sums', ()):
            if (x, y) in ((a, b), (b, a)) or same(x, a) and same(y, b) or same(x, b) and same(y, a):
                return [(st, r)]
        r = self.mk(st)
        st.data['sums'] = tuple(st.data.get('sums', ())) + ((a, b, r),)
        return [(st, r)]


def params(D):
    if isinstance(D, ring.Pair):
        return [P(D.nqr)] + params(D.base)
    if isinstance(D, ring.PolyMod):
        return [c for x in D.coeffs for c in flat(x)] + params(D.base)
    return []


def numeric(D, ev):
    """the field with its parameters evaluated"""
    if isinstance(D, ring.Pair):
        return ring.Pair(numeric(D.base, ev), ev(P(D.nqr)), D.name)
    if isinstance(D, ring.PolyMod):
        red = lambda v: tuple(red(y) for y in v) if isinstance(v, tuple) else P(ev(P(v)))
        return ring.PolyMod(numeric(D.base, ev), [red(c) for c in D.coeffs], D.name)
    return D


class MillerUnit(Unit):
    """shared: proportional values, rules, pairing structures"""
    src = None

    def __init__(self, only=None, skip=None, **k):
        super().__init__(**k)
        self.only, self.skip = only, skip
        self.ex.contracts['#tstbit'] = u_pow.tstbit
        self.assumptions.add("P has odd prime order r, so no multiple of P met before the last step is the identity and no line is degenerate")
        self.assumptions.add("Miller's theorem and the Tate pairing: f_r(P, Q)^((q^k-1)/r) is bilinear and nondegenerate on the stated groups, and the final powering sends every factor in the proper subfield to 1 (mathematics, not checked here)")
        self.assumptions.add("curve and field slots satisfy the abstract contracts proved under C01 to C04")

    def case(self, label, f, *a):
        if self.only and not any(x in label for x in self.only):
            return
        if self.skip and any(x in label for x in self.skip):
            return
        super().case(label, f, *a)

    def off(self, tag):
        return modules()[self.src].struct_offsets(tag)

    # ---- proportionality
    def scalar(self, st, got, want):
        """s with got = s * want coordinate by coordinate, or None"""
        got = [cancel(st, ring.value_form(st, x)) for x in flat(got)]
        want = [cancel(st, ring.value_form(st, x)) for x in flat(want)]
        if len(got) != len(want):
            return None
        for j in sorted(range(len(want)), key=lambda j: len(want[j].t)):
            if want[j].is_zero():
                continue
            q = self.quot(st, got[j], want[j])
            if q is None:
                continue
            if all(ring.prove_zero(st, g - q * w) for g, w in zip(got, want)):
                return q
        return None

    def quot(self, st, a, b):
        if a.is_zero():
            return None
        q = a.exact_div(b, st.data.get('char'))
        if q is not None:
            return q
        # try small scalings by known units
        return None

    def unit_scalar(self, st, s):
        s = cancel(st, s)
        if s.is_const() and not s.is_zero():
            return True
        invs = {v for v, d in st.data.get('inv', ())}
        s2 = s
        for v in list(s2.vars()):
            if v in invs and len(s2.t) == 1:
                pass
        z = ring.zero_cond(self.ex, st, s)
        return z is False

    def prop(self, st, name, got, want, D):
        """got and want are equal up to a nonzero factor in the scalars"""
        if self.leak:
            return
        if self.canary:
            want = want.mul(sym('canary'))
        r = got.mul(want.pow(-1))
        left = [(k, x, e) for k, x, e in r.f]
        syms = [(x, e) for k, x, e in left if k == 'sym']
        vals = [(x, e) for k, x, e in left if k == 'val']
        self.canary_depth += 1
        try:
            if syms and not vals:
                self.ob(name, 'failed', 'computed %r, rules give %r' % (got, want))
                return
            if self.differ(st, r, D):
                self.ob(name, 'failed' if st.data.get('sums') else 'refuted', 'not proportional to the value by the rules: computed %r, rules give %r' % (got, want))
                return
            # pair the values off
            pend = list(vals)
            ok = True
            while pend and ok:
                x, e = pend.pop(0)
                for i, (y, e2) in enumerate(pend):
                    if e2 == -e:
                        s = self.scalar(st, x, y) if e.is_const() and e.const_value() > 0 else self.scalar(st, y, x)
                        if s is not None and self.unit_scalar(st, s):
                            pend.pop(i)
                            break
                else:
                    # a value that is itself a unit scalar
                    if all(ring.prove_zero(st, c) for c in flat(x)[1:]) and self.unit_scalar(st, flat(x)[0]):
                        continue
                    ok = False
            if ok and not syms:
                self.ob(name, 'proved')
                return
            # multiply out
            num = Formal([(k, x, e) for k, x, e in r.f if e.is_const() and e.const_value() > 0])
            den = Formal([(k, x, -e) for k, x, e in r.f if e.is_const() and e.const_value() < 0])
            if len(num.f) + len(den.f) == len(r.f):
                es = [int(e.const_value()) for _, _, e in num.f + den.f]
                g = 0
                for e in es:
                    import math
                    g = math.gcd(g, e)
                if g > 1:
                    num, den = (Formal([(k, x, int(e.const_value()) // g) for k, x, e in z.f]) for z in (num, den))
                a, b = D.concrete(num), D.concrete(den)
                s = self.scalar(st, a, b)
                if s is not None and self.unit_scalar(st, s):
                    self.ob(name, 'proved')
                    return
                fa, fb = flat(a), flat(b)
                j = min((j for j in range(len(fb)) if not fb[j].is_zero()), key=lambda j: len(fb[j].t))
                for i in range(len(fa)):
                    d = fa[i] * fb[j] - fa[j] * fb[i]
                    w = witness(st, d, seed=self.seed)
                    if w is not None and not ring.prove_zero(st, d):
                        self.ob(name, 'refuted', 'not proportional to the value by the rules, e.g. at %s' % str(dict(list(w.items())[:8])))
                        return
            self.ob(name, 'unknown', 'computed %r, rules give %r' % (got, want))
        finally:
            self.canary_depth -= 1

    def differ(self, st, r, D, exact=False):
        """does the product r take a value outside the scalars in a random model?"""
        if not all(e.is_const() and abs(e.const_value()) <= 64 for _, _, e in r.f):
            return False
        fac = [(self.F_coords(D, k, x), int(e.const_value())) for k, x, e in r.f]
        N0 = D.inner
        polys = [c for x, _ in fac for c in flat(x)] + params(N0)
        q = st.data.get('char') or Q
        for n, (env, ev) in enumerate(models(st, polys, 600, self.seed)):
            if n >= 3:
                break
            N = numeric(N0, ev)
            red = lambda v: tuple(red(y) for y in v) if isinstance(v, tuple) else P(ev(P(v)))
            num = den = N.one()
            for x, e in fac:
                x = red(x)
                for _ in range(abs(e)):
                    if e > 0:
                        num = red(N.mul(num, x))
                    else:
                        den = red(N.mul(den, x))
            a, b = ([ev(c) for c in flat(v)] for v in (num, den))
            if not any(a) or not any(b):
                continue
            j = next(j for j in range(len(b)) if b[j])
            if any((a[i] * b[j] - a[j] * b[i]) % q for i in range(len(a))) or exact and a != b:
                return True
        return False

    def F_coords(self, D, k, x):
        return D.coords(x) if k == 'sym' else x

    def ptsame(self, st, name, got, want, z=None):
        """got = (X, Y) in the code's coordinates, want affine"""
        if z is None:
            self.eq(st, name, got, want)
        else:
            self.eq(st, name, got, (want[0] * z ** 2, want[1] * z ** 3))

    # ---- rules: coefficients of the line a X + b Y + c
    def tangent(self, v):
        a, b = self.A, 0
        l = P(0) - (v[0] * v[0] * 3 + self.A)
        return l, v[1] * 2, P(0) - (v[1] * v[1] * 2 + l * v[0])

    def line(self, v, w):
        return v[1] - w[1], w[0] - v[0], v[0] * w[1] - v[1] * w[0]

    def at(self, l):
        """value of the line at the evaluation point"""
        raise NotImplementedError

    def pt(self, st, nm):
        x, y = Poly.fresh(nm + 'x'), Poly.fresh(nm + 'y')
        st.data['rules'] = list(st.data.get('rules', ())) + [(next(iter(y.vars())), 2, x ** 3 + self.A * x + self.B)]
        st.nonzeros.append(y)
        return x, y

    def double(self, st, v):
        lam = (v[0] * v[0] * 3 + self.A) * ring.inverse(self.ex, st, v[1] * 2)
        x = lam * lam - v[0] * 2
        return x, lam * (v[0] - x) - v[1]

    def addp(self, st, v, w):
        lam = (w[1] - v[1]) * ring.inverse(self.ex, st, w[0] - v[0])
        x = lam * lam - v[0] - w[0]
        return x, lam * (v[0] - x) - v[1]

    def holds(self, st, name, goal):
        if self.leak:
            return
        if self.canary:
            goal = z3.Not(goal)
        r = self.ex.check(st, [z3.Not(goal)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(goal)[:200])
        self.canary_depth -= 1

    def array(self, st, es):
        p = st.alloc(ring.LAY.e_size * len(es), 'heap', 'array')
        for j, e in enumerate(es):
            for off in (ring.LAY.e_field, ring.LAY.e_data):
                ring.setcell(st, p, j * ring.LAY.e_size + off, ring.getcell(st, e, off))
            st.wobj(e.obj).freed = True
        return p

    def curve_elem(self, st, E, v, nm='pt'):
        return ring.new_elem(self.ex, st, E, v, nm)


# ---------------------------------------------------------------- type A

class ALoop(LoopInv):
    """V = 2^i P, f = f_{2^i}"""

    def __init__(self, unit, fn, idx, proj, n=1):
        super().__init__(unit, fn, idx)
        self.proj, self.n = proj, n

    def V(self, L, j):
        p = L.ptr('V')
        if self.n is not None:
            p = L.arg('V')
            p = Ptr(p.obj, p.off + j * ring.LAY.e_size)
        return p

    def pts(self, L):
        if self.n is None:
            return [L.elem('V')]
        return [ring.get(L.ex, L.st, self.V(L, j)) for j in range(self.n)]

    def havoc(self, L):
        u, st = self.unit, L.st
        vs = [u.pt(st, 'v') for _ in range(self.n or 1)]
        m = sym('f')
        i = Poly.fresh('i')
        st.data['miller%d' % self.idx] = (tuple(vs), m, i)
        z = P(1)
        if self.proj:
            z = Poly.fresh('z')
            st.nonzeros.append(z)
            L.set_elem('z', z)
            L.set_elem('z2', z * z)
            L.set_elem('V', (vs[0][0] * z ** 2, vs[0][1] * z ** 3))
        elif self.n is None:
            L.set_elem('V', vs[0])
        else:
            for j in range(self.n):
                ring.put(L.ex, st, self.V(L, j), vs[j])
        L.set_elem('f', m)
        L.set_int('i', i, 0, 1 << 30)
        L.assume(z3.And(to_z3(i) >= (0 if self.idx == self.first else to_z3(u.e1)), to_z3(i) <= to_z3(u.e1 if self.idx == self.first else u.e2)))

    first = 0

    def check(self, L, tag):
        u, st = self.unit, L.st
        i = L.int('i')
        pts, f = self.pts(L), L.elem('f')
        z = None
        if self.proj:
            z = L.elem('z')
            u.eq(st, 'z2 is z^2 (%s)' % tag, L.elem('z2'), z * z)
            c = ring.zero_cond(L.ex, st, z)
            u.holds(st, 'z is not 0 (%s)' % tag, z3.BoolVal(not c) if isinstance(c, bool) else z3.Not(c))
        if tag == 'entry':
            if self.idx == self.first:
                want, g, i0 = u.P, Formal(), P(0)
            else:
                want, g, ip = st.data['miller%d' % self.first]
                u.holds(st, 'first loop has done exp1 steps', to_z3(ip) == to_z3(u.e1))
                i0 = u.e1
            for p, w in zip(pts, want):
                u.ptsame(st, 'V is the point (entry)', p, w, z)
            u.prop(st, 'f (entry)', f, g, u.F2)
            u.holds(st, 'i (entry)', to_z3(i) == to_z3(i0))
            return
        vs, m, i0 = st.data['miller%d' % self.idx]
        u.holds(st, 'i grows by one', to_z3(i) == to_z3(i0) + 1)
        g = m.pow(2)
        for j, (p, v) in enumerate(zip(pts, vs)):
            u.ptsame(st, 'V is doubled', p, u.double(st, v), z)
            g = g.mul(u.F2.val(u.at(u.tangent(v), j)))
        u.prop(st, 'f becomes f^2 T(V)', f, g, u.F2)


class AUnit(MillerUnit):
    name = 'type A Miller loops'
    src = 'ecc/a_param.c'

    def __init__(self, **k):
        super().__init__(**k)
        self.A, self.B = P(1), P(0)
        self.ex.contracts['a_tateexp'] = self.c_tate

    def setup(self, sign, n=1):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        o = self.off('a_pairing_data_ptr')
        d = st.alloc(o['sign1'] + 8, 'heap', 'a data')
        self.Fq = ring.Base('Fq')
        self.F2i = ring.Pair(self.Fq, -1, 'Fq2')
        self.F2 = Mul(self.F2i)
        self.E = GCurve(self.Fq, self.A, self.B)
        for nm, D in (('Fq', self.Fq), ('Fq2', self.F2), ('Eq', self.E)):
            ring.embed_field(st, Ptr(d.obj, o[nm]), D)
        self.e1, self.e2 = Poly.var('exp1'), Poly.var('exp2')
        ex.assume(st, z3.And(to_z3(self.e1) >= 1, to_z3(self.e2) > to_z3(self.e1), to_z3(self.e2) <= 1 << 29))
        ring.setcell(st, d, o['exp1'], SI(32, self.e1, 1, 1 << 29), 4)
        ring.setcell(st, d, o['exp2'], SI(32, self.e2, 1, 1 << 29), 4)
        ring.setcell(st, d, o['sign1'], sign % (1 << 32), 4)
        self.sign = sign
        po = self.off('pairing_s')
        pr = st.alloc(po['data'] + 8, 'heap', 'pairing')
        ring.setcell(st, pr, po['data'], d)
        st.wobj(pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: Poly.var('r')}
        self.pr, self.po = pr, po
        self.P = tuple(self.pt(st, 'p') for _ in range(n))
        self.Q = tuple(self.pt(st, 'q') for _ in range(n))
        self.ends = 0
        return st

    def at(self, l, j=0):
        # distortion (x, y) -> (-x, iy)
        a, b, c = l
        return (c - a * self.Q[j][0], b * self.Q[j][1])

    def c_tate(self, ex, st, a):
        out, inp, temp, z = a
        self.eq(st, 'final powering uses the stated cofactor', gmp.mget(ex, st, z), Poly.var('phikonr'))
        if out == inp or out == temp or inp == temp:
            raise Unsupported("final powering called with equal operands")
        self.final(st, ring.get(ex, st, inp))
        t = sym('TATE')
        st.data['tate'] = t
        ring.put(ex, st, out, t)
        ring.put(ex, st, inp, sym('clobbered'))
        ring.put(ex, st, temp, sym('clobbered'))

    def final(self, st, f):
        v1, m1, i1 = st.data['miller%d' % self.l0]
        v2, m2, i2 = st.data['miller%d' % self.l1]
        self.holds(st, 'second loop has done exp2 steps', to_z3(i2) == to_z3(self.e2))
        g = m2.mul(m1.pow(self.sign))
        for j in range(len(v1)):
            w = (v1[j][0], v1[j][1] * self.sign)
            st.nonzeros.append(v1[j][0] - v2[j][0])
            g = g.mul(self.F2.val(self.at(self.line(v2[j], w), j)))
        self.prop(st, 'value handed to the final powering is f_N, N = 2^exp2 + sign1 2^exp1', f, g, self.F2)

    def run1(self, fn, sign, proj):
        st = self.setup(sign)
        self.l0, self.l1 = 0, 1
        ALoop(self, fn, 0, proj, None)
        ALoop(self, fn, 1, proj, None)
        a, b = self.curve_elem(st, self.E, self.P[0]), self.curve_elem(st, self.E, self.Q[0])
        out = ring.new_elem(self.ex, st, self.F2, None)
        self.go(st, fn, out, [a, b], out, a, b, self.pr)

    def runn(self, sign, n):
        fn = 'a_pairings_affine'
        st = self.setup(sign, n)
        self.l0, self.l1 = 1, 5
        for k in (self.l0, self.l1):
            ALoop(self, fn, k, False, n).first = self.l0
        a = self.array(st, [self.curve_elem(st, self.E, x) for x in self.P])
        b = self.array(st, [self.curve_elem(st, self.E, x) for x in self.Q])
        out = ring.new_elem(self.ex, st, self.F2, None)
        ins = [Ptr(x.obj, j * ring.LAY.e_size) for x in (a, b) for j in range(n)]
        self.go(st, fn, out, ins, out, a, b, n, self.pr)

    def go(self, st, fn, out, ins, *args):
        hp = heap(st, list({x.obj: x for x in args if isinstance(x, Ptr)}.values()))
        before = [ring.get(self.ex, st, x) for x in ins]
        n = 0
        for s, _ in self.fn(st, fn, *args, mod=self.src):
            n += 1
            self.path_ok(s)
            got = ring.get(self.ex, s, out)
            ok = got == s.data.get('tate')
            if self.canary:
                ok = not ok
            self.canary_depth += 1
            self.ob('result is the powered value', 'proved' if ok else 'failed', repr(got))
            self.canary_depth -= 1
            for x, v in zip(ins, before):
                self.eq(s, 'operand unchanged', ring.get(self.ex, s, x), v)
            self.no_leak(s, hp, None, fn)
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    def body(self):
        for sign in (1, -1):
            self.case('affine, sign1 %d' % sign, self.run1, 'a_pairing_affine', sign, False)
            self.case('projective, sign1 %d' % sign, self.run1, 'a_pairing_proj', sign, True)
            for n in (1, 2, 3):
                self.case('product of %d, sign1 %d' % (n, sign), self.runn, sign, n)


# ---------------------------------------------------------------- double and add along the bits of r

def jdouble(A, v):
    """Jacobian (X, Y, Z) of 2 v, v Jacobian"""
    X, Y, Z = v
    m = X * X * 3 + A * Z ** 4
    t = X * Y * Y * 4
    x = m * m - t * 2
    return x, m * (t - x) - Y ** 4 * 8, Y * Z * 2


def jadd(v, w):
    """v Jacobian, w affine"""
    X, Y, Z = v
    h, r = w[0] * Z * Z - X, w[1] * Z ** 3 - Y
    x = r * r - h ** 3 - X * h * h * 2
    return x, r * (X * h * h - x) - Y * h ** 3, Z * h


def jline(v, w):
    X, Y, Z = v
    return Y - w[1] * Z ** 3, w[0] * Z ** 3 - X * Z, X * Z * w[1] - Y * w[0]


class BitLoop(LoopInv):
    """at index m: V = nP and f stands for f_n^2, where n = r >> (m + 1)"""

    def __init__(self, unit, fn, idx, proj, n, names=('Z', 'v')):
        super().__init__(unit, fn, idx)
        self.proj, self.n, self.names = proj, n, names

    def match(self, fn, blk, i):
        return i == self.idx

    def V(self, L, j):
        nm = self.names[0]
        if self.n is None:
            return L.ptr(nm)
        p = L.arg(nm)
        return Ptr(p.obj, p.off + j * ring.LAY.e_size)

    def pts(self, L):
        return [ring.get(L.ex, L.st, self.V(L, j)) for j in range(self.n or 1)]

    def havoc(self, L):
        u, st = self.unit, L.st
        vs = [u.pt(st, 'v') for _ in range(self.n or 1)]
        f = sym('f')
        m = Poly.fresh('m')
        z = P(1)
        if self.proj:
            z = Poly.fresh('z')
            st.nonzeros.append(z)
            L.set_elem('z', z)
            L.set_elem('z2', z * z)
            ring.put(L.ex, st, self.V(L, 0), (vs[0][0] * z ** 2, vs[0][1] * z ** 3))
        else:
            for j, v in enumerate(vs):
                ring.put(L.ex, st, self.V(L, j), v)
        L.set_elem(self.names[1], f)
        L.set_int('m', m, 0, 1 << 62, 64)
        L.assume(to_z3(m) <= to_z3(u.bits) - 2)
        st.data['miller'] = (tuple(vs), f, m, z)
        st.data['bit'] = ()

    def check(self, L, tag):
        u, st = self.unit, L.st
        m = L.int('m', 64, False)
        pts, f = self.pts(L), L.elem(self.names[1])
        z = None
        if self.proj:
            z = L.elem('z')
            u.eq(st, 'z2 is z^2 (%s)' % tag, L.elem('z2'), z * z)
            if tag == 'entry':
                c = ring.zero_cond(L.ex, st, z)
                u.holds(st, 'z is not 0 (%s)' % tag, z3.BoolVal(not c) if isinstance(c, bool) else z3.Not(c))
        if tag == 'entry':
            for p, w in zip(pts, u.P):
                u.ptsame(st, 'V is the point (entry)', p, w, z)
            u.prop(st, 'f (entry)', f, Formal(), u.F2)
            u.holds(st, 'starts below the leading bit of r', to_z3(m) == to_z3(u.bits) - 2)
            return
        vs, f0, m0, z0 = st.data['miller']
        u.holds(st, 'm goes down by one', to_z3(m) == to_z3(m0) - 1)
        b = u.bit(st, m0)
        if b is None:
            u.ob('bit of r looked at', 'failed', 'no test of bit m on this path')
            return
        g = f0
        for j, (p, v) in enumerate(zip(pts, vs)):
            g = g.mul(u.F2.val(u.at(u.tangent(v), j)))
            w = u.P[j]
            if self.proj:
                d = jdouble(u.A, (v[0], v[1], P(1)))
                l = jline(d, w)
                t = jadd(d, w) if b else d
                st.nonzeros.append(w[0] * d[2] ** 2 - d[0])
                u.eq(st, 'x of V is that of 2V%s' % ('+P' if b else ''), p[0] * t[2] ** 2, t[0] * z ** 2)
                u.eq(st, 'y of V is that of 2V%s' % ('+P' if b else ''), p[1] * t[2] ** 3, t[1] * z ** 3)
                c = ring.zero_cond(L.ex, st, z)
                u.holds(st, 'z is not 0', z3.BoolVal(not c) if isinstance(c, bool) else z3.Not(c))
            else:
                d = u.E.sum(L.ex, st, v, v)[0][1]
                l = u.line(d, w)
                t = u.E.sum(L.ex, st, d, w)[0][1] if b else d
                u.eq(st, 'V is 2V%s' % ('+P' if b else ''), p, t)
            if b:
                g = g.mul(u.F2.val(u.at(l, j)))
        u.prop(st, 'f becomes (f T(V)%s)^2' % (' L(2V,P)' if b else ''), f, g.pow(2), u.F2)


class BitUnit(MillerUnit):
    """shared by types A1, D, G"""
    Field = ring.Base

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['#tstbit'] = self.c_tstbit
        C['#sizeinbase'] = self.c_bits
        for nm in ('curve_a_coeff', 'curve_field_a_coeff'):
            C[nm] = lambda ex, st, a: self.aelem
        C['polymod_field_degree'] = lambda ex, st, a: ring.fdesc(st, a[0]).n
        self.assumptions.add("r is odd and at least 3; mpz_tstbit and mpz_sizeinbase give the binary digits of r, so r >> m = 2 (r >> (m + 1)) + bit m")

    def c_bits(self, ex, st, v, base):
        if base != 2 or not v == self.rv:
            raise Unsupported("size of another number")
        return SI(64, self.bits, 2, 1 << 40)

    def c_tstbit(self, ex, st, v, k):
        if not v == self.rv:
            raise Unsupported("bit of another number")
        k = ex.as_u(st, k, 64) if not isinstance(k, Poly) else k
        for i, b in st.data.get('bit', ()):
            if i == k:
                return SI(32, b, 0, 1)
        b = Poly.fresh('bit')
        ex.assume(st, z3.And(to_z3(b) >= 0, to_z3(b) <= 1))
        st.data['bit'] = tuple(st.data.get('bit', ())) + ((k, b),)
        return SI(32, b, 0, 1)

    def bit(self, st, m):
        for i, b in st.data.get('bit', ()):
            if self.ex.check(st, [to_z3(i) != to_z3(m)]) == z3.unsat:
                if self.ex.check(st, [to_z3(b) == 0]) == z3.unsat:
                    return 1
                if self.ex.check(st, [to_z3(b) == 1]) == z3.unsat:
                    return 0
        return None

    def base(self, n, proj=False):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        st.data['symname'] = 1
        self.rv, self.bits = Poly.var('r'), Poly.var('bits')
        ex.assume(st, z3.And(to_z3(self.bits) >= 2, to_z3(self.bits) < 1 << 40))
        self.Fq = self.Field('Fq')
        ring.mk_field(ex, st, self.Fq)
        self.E = (GCurve if proj else SCurve)(self.Fq, self.A, self.B)
        self.E.mk = lambda st: self.pt(st, 's')
        self.P = tuple(self.pt(st, 'p') for _ in range(n))
        self.aelem = ring.new_elem(ex, st, self.Fq, self.A, 'curve a')
        st.wobj(self.aelem.obj).kind = 'global'
        st.wobj(ring.getcell_raw(st, self.aelem).obj).kind = 'global'
        return st

    def rz(self, st):
        z = st.alloc(16, 'heap', 'r')
        gmp.minit(self.ex, st, z)
        gmp.mset(self.ex, st, z, self.rv)
        return z

    def last(self, st):
        """f_(r-1): the last step is a tangent, the line that would follow is vertical"""
        vs, f, m, z = st.data['miller']
        self.holds(st, 'every bit of r above the last was used', to_z3(m) == 0)
        g = f
        for j, v in enumerate(vs):
            g = g.mul(self.F2.val(self.at(self.tangent(v), j)))
        return g

    def miller(self, fn, d, proj, n):
        """Miller functions of types D and G: (res, q, P, Qx, Qy[, n])"""
        self.A, self.B = Poly.var('A'), Poly.var('B')
        st = self.base(n or 1, proj)
        ex = self.ex
        ring.mk_field(ex, st, self.E)
        self.Fqd = ring.PolyMod(self.Fq, [Poly.var('c%d' % i) for i in range(d)], 'Fqd')
        ring.mk_field(ex, st, self.Fqd)
        self.F2i = ring.Pair(self.Fqd, Poly.var('nqr'), 'Fqk')
        self.F2 = Mul(self.F2i)
        ring.mk_field(ex, st, self.F2)
        self.Q = tuple((tuple(Poly.fresh('qx') for _ in range(d)), tuple(Poly.fresh('qy') for _ in range(d))) for _ in self.P)
        BitLoop(self, fn, self.loopidx(fn, n), proj, n)
        res = ring.new_elem(ex, st, self.F2, None)
        Ps = [ring.new_elem(ex, st, self.E, p) for p in self.P]
        Qx = [ring.new_elem(ex, st, self.Fqd, q[0]) for q in self.Q]
        Qy = [ring.new_elem(ex, st, self.Fqd, q[1]) for q in self.Q]
        args = [Ps[0], Qx[0], Qy[0]] if n is None else [self.array(st, x) for x in (Ps, Qx, Qy)]
        rz = self.rz(st)
        hp = heap(st, [res, rz] + args)
        k = 0
        for s, _ in self.fn(st, fn, res, rz, *args, *([n] if n else []), mod=self.src):
            k += 1
            if not self.path_ok(s):
                continue
            self.prop(s, 'result is f_(r-1)', ring.get(ex, s, res), self.last(s), self.F2)
            for j in range(len(self.P)):
                e = args[0] if n is None else Ptr(args[0].obj, j * ring.LAY.e_size)
                self.eq(s, 'point unchanged', ring.get(ex, s, e), self.P[j])
            self.no_leak(s, hp, None, fn)
        if not k:
            self.ob('returns', 'unknown', 'no path returns')

    def at(self, l, j=0):
        a, b, c = l
        x, y = self.Q[j]
        return tuple(a * q + (c if i == 0 else 0) for i, q in enumerate(x)), tuple(b * q for q in y)

    def loopidx(self, fn, n):
        return 0 if n is None else 1


class DUnit(BitUnit):
    name = 'type D Miller loops'
    src = 'ecc/d_param.c'
    d = 3

    def body(self):
        self.case('affine', self.miller, 'cc_miller_no_denom_affine', self.d, False, None)
        self.case('projective', self.miller, 'cc_miller_no_denom_proj', self.d, True, None)
        for n in (1, 2, 3):
            if 'cc_millers_no_denom_affine' in modules()[self.src].funcs:
                self.case('product of %d' % n, self.miller, 'cc_millers_no_denom_affine', self.d, False, n)


class GUnit(DUnit):
    name = 'type G Miller loops'
    src = 'ecc/g_param.c'
    d = 5


# ---------------------------------------------------------------- type A1

def conj(v):
    return v[0], tuple(conj_neg(x) for x in v[1]) if isinstance(v[1], tuple) else P(0) - v[1]


def conj_neg(x):
    return tuple(conj_neg(y) for y in x) if isinstance(x, tuple) else P(0) - x


class A1Unit(BitUnit):
    name = 'type A1 Miller loops'
    src = 'ecc/a_param.c'

    def setup(self, n, proj):
        self.A, self.B = P(1), P(0)
        st = self.base(n, proj)
        o = self.off('a1_pairing_data_ptr')
        d = st.alloc(max(o.values()) + 2048, 'heap', 'a1 data')
        self.F2i = ring.Pair(self.Fq, -1, 'Fq2')
        self.F2 = Mul(self.F2i)
        for nm, D in (('Fp', self.Fq), ('Fp2', self.F2), ('Ep', self.E)):
            ring.embed_field(st, Ptr(d.obj, o[nm]), D)
        po = self.off('pairing_s')
        pr = st.alloc(po['data'] + 8, 'heap', 'pairing')
        ring.setcell(st, pr, po['data'], d)
        st.wobj(pr.obj).mpz = {po['phikonr']: Poly.var('phikonr'), po['r']: self.rv}
        self.pr = pr
        self.Q = tuple(self.pt(st, 'q') for _ in range(n))
        return st

    def at(self, l, j=0):
        a, b, c = l
        return (c - a * self.Q[j][0], b * self.Q[j][1])

    def tate(self, st, got, want):
        """got = (conj(X) / X)^phikonr with X proportional to want"""
        if self.leak:
            return
        name = 'result is f_(r-1)^(q-1) to the stated cofactor'
        h = Poly.var('phikonr')
        if self.canary:
            h = h + 1
        self.canary_depth += 1
        try:
            facs = []
            for k, x, e in got.f:
                q = e.exact_div(h)
                if q is None:
                    self.ob(name, 'failed', 'exponent %r of a factor is not a multiple of the cofactor' % e)
                    return
                facs.append((k, x, q))
            X = Formal([(k, x, P(0) - e) for k, x, e in facs if e.is_const() and e.const_value() < 0])
            C = Formal([(k, x, e) for k, x, e in facs if e.is_const() and e.const_value() > 0])
            if len(X.f) + len(C.f) != len(facs) or not X.f:
                self.ob(name, 'unknown', 'computed %r' % got)
                return
            a, b = self.F2.concrete(C), conj(self.F2.concrete(X))
            if all(ring.prove_zero(st, x - y) for x, y in zip(flat(a), flat(b))):
                self.ob('numerator is the conjugate of the denominator', 'proved')
            else:
                # compare with the wanted value directly
                w = conj(self.F2.concrete(want))
                r = C.mul(X.pow(-1)).mul(want).mul(self.F2.val(w).pow(-1))
                self.ob(name, 'refuted' if self.differ(st, r, self.F2, True) else 'unknown', 'computed %r' % got)
                return
        finally:
            self.canary_depth -= 1
        self.prop(st, 'value powered is f_(r-1)', X, want, self.F2)

    def run1(self, fn, proj, n):
        k = n or 1
        st = self.setup(k, proj)
        BitLoop(self, fn, 0 if n is None else 1, proj, n, ('V', 'f'))
        Ps = [self.curve_elem(st, self.E, x) for x in self.P]
        Qs = [self.curve_elem(st, self.E, x) for x in self.Q]
        out = ring.new_elem(self.ex, st, self.F2, None)
        if n is None:
            args, ins = [Ps[0], Qs[0]], Ps + Qs
        else:
            args = [self.array(st, Ps), self.array(st, Qs)]
            ins = [Ptr(x.obj, j * ring.LAY.e_size) for x in args for j in range(n)]
        args = [out] + args + ([n] if n else []) + [self.pr]
        before = [ring.get(self.ex, st, x) for x in ins]
        hp = heap(st, [x for x in args if isinstance(x, Ptr)])
        c = 0
        for s, _ in self.fn(st, fn, *args, mod=self.src):
            c += 1
            if not self.path_ok(s):
                continue
            self.tate(s, ring.get(self.ex, s, out), self.last(s))
            for x, v in zip(ins, before):
                self.eq(s, 'operand unchanged', ring.get(self.ex, s, x), v)
            self.no_leak(s, hp, None, fn)
        if not c:
            self.ob('returns', 'unknown', 'no path returns')

    def body(self):
        self.case('affine', self.run1, 'a1_pairing', False, None)
        self.case('projective', self.run1, 'a1_pairing_proj', True, None)
        for n in (1, 2, 3):
            self.case('product of %d' % n, self.run1, 'a1_pairings_affine', False, n)


# ---------------------------------------------------------------- type E

class ELoop(LoopInv):
    """Z = 2^i P and v / vd = F(Q+R) / F(R), F = f_{2^i}"""

    def __init__(self, unit, fn, idx, proj):
        super().__init__(unit, fn, idx)
        self.proj = proj

    def havoc(self, L):
        u, st = self.unit, L.st
        p = u.pt(st, 'v')
        v, vd, i, z = Poly.fresh('num'), Poly.fresh('den'), Poly.fresh('i'), P(1)
        if self.proj:
            z = Poly.fresh('z')
            st.nonzeros.append(z)
            L.set_elem('z', z)
            L.set_elem('z2', z * z)
        L.set_elem('Z', (p[0] * z ** 2, p[1] * z ** 3))
        st.nonzeros += [v, vd]
        L.set_elem('v', v)
        L.set_elem('vd', vd)
        lo, hi = (P(0), u.e1) if self.idx == 0 else (u.e1, u.e2)
        L.set_int('i', i, 0, 1 << 30)
        L.assume(z3.And(to_z3(i) >= to_z3(lo), to_z3(i) <= to_z3(hi)))
        st.data['miller%d' % self.idx] = (p, v, vd, i)

    def check(self, L, tag):
        u, st = self.unit, L.st
        i = L.int('i')
        p, v, vd, z = L.elem('Z'), L.elem('v'), L.elem('vd'), P(1)
        if self.proj:
            z = L.elem('z')
            u.eq(st, 'z2 is z^2 (%s)' % tag, L.elem('z2'), z * z)
        if tag == 'entry':
            if self.idx == 0:
                w, n, d, i0 = u.P[0], P(1), P(1), P(0)
            else:
                w, n, d, ip = st.data['miller0']
                u.holds(st, 'first loop has done exp1 steps', to_z3(ip) == to_z3(u.e1))
                i0 = u.e1
            u.ptsame(st, 'Z is the point (entry)', p, w, z)
            u.eq(st, 'v / vd (entry)', v * d, vd * n)
            u.holds(st, 'i (entry)', to_z3(i) == to_z3(i0))
            return
        w, n, d, i0 = st.data['miller%d' % self.idx]
        u.holds(st, 'i grows by one', to_z3(i) == to_z3(i0) + 1)
        T = u.tangent(w)
        if self.proj:
            t = jdouble(u.A, (w[0], w[1], P(1)))
            u.eq(st, 'x of Z is that of 2Z', p[0] * t[2] ** 2, t[0] * z ** 2)
            u.eq(st, 'y of Z is that of 2Z', p[1] * t[2] ** 3, t[1] * z ** 3)
            vert = P(0) - t[2] ** 2, P(0), t[0]
        else:
            t = u.E.sum(L.ex, st, w, w)[0][1]
            u.eq(st, 'Z is 2Z', p, t)
            vert = P(-1), P(0), t[0]
        num = n * n * u.lv(T, u.QR) * u.lv(vert, u.R)
        den = d * d * u.lv(T, u.R) * u.lv(vert, u.QR)
        u.ratio(st, 'v / vd becomes (v / vd)^2 T(Z) / V(2Z)', v, vd, num, den)


class EBase(ring.Base):
    """the values of lines and verticals are assumed not to be 0"""

    def s_invert(self, ex, st, n, a):
        v = ring.get(ex, st, a)
        if v.is_zero():
            return super().s_invert(ex, st, n, a)
        st.nonzeros.append(v)
        ring.put(ex, st, n, self.inv(ex, st, v))


class EUnit(BitUnit):
    name = 'type E Miller loops'
    src = 'ecc/e_param.c'
    Field = EBase

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("type E: Q+R and R avoid the zeros and poles of every line met (R is fixed at random when the pairing is made)")

    def lv(self, l, p):
        return l[0] * p[0] + l[1] * p[1] + l[2]

    def ratio(self, st, name, a, b, c, d):
        """a/b = c/d, exact"""
        self.eq(st, name, a * d, b * c)

    def run1(self, fn, proj, sign1, sign0):
        self.A, self.B = Poly.var('A'), Poly.var('B')
        st = self.base(1)
        ex = self.ex
        ring.mk_field(ex, st, self.E)
        o = self.off('e_pairing_data_ptr')
        d = st.alloc(max(o.values()) + 2048, 'heap', 'e data')
        self.e1, self.e2 = Poly.var('exp1'), Poly.var('exp2')
        ex.assume(st, z3.And(to_z3(self.e1) >= 1, to_z3(self.e2) > to_z3(self.e1), to_z3(self.e2) <= 1 << 29))
        ring.setcell(st, d, o['exp1'], SI(32, self.e1, 1, 1 << 29), 4)
        ring.setcell(st, d, o['exp2'], SI(32, self.e2, 1, 1 << 29), 4)
        ring.setcell(st, d, o['sign1'], sign1 % (1 << 32), 4)
        ring.setcell(st, d, o['sign0'], sign0 % (1 << 32), 4)
        self.QR, self.R = self.pt(st, 'qr'), self.pt(st, 'r')
        for k in (0, 1):
            ELoop(self, fn, k, proj)
        a, b, c = (self.curve_elem(st, self.E, x) for x in (self.P[0], self.QR, self.R))
        out = ring.new_elem(ex, st, self.Fq, None)
        hp = heap(st, [out, a, b, c, d])
        n = 0
        for s, _ in self.fn(st, fn, out, a, b, c, d, mod=self.src):
            n += 1
            if not self.path_ok(s):
                continue
            w1, n1, d1, i1 = s.data['miller0']
            w2, n2, d2, i2 = s.data['miller1']
            self.holds(s, 'second loop has done exp2 steps', to_z3(i2) == to_z3(self.e2))
            w = (w1[0], w1[1] * sign1)
            s.nonzeros.append(w1[0] - w2[0])
            l = self.line(w2, w)
            t = self.E.sum(ex, s, w2, w)[0][1]
            V = lambda x: (P(-1), P(0), x)
            num = n2 * self.lv(l, self.QR) * self.lv(V(t[0]), self.R)
            den = d2 * self.lv(l, self.R) * self.lv(V(t[0]), self.QR)
            if sign1 > 0:
                num, den = num * n1, den * d1
            else:
                num, den = num * d1 * self.lv(V(w1[0]), self.R), den * n1 * self.lv(V(w1[0]), self.QR)
            if sign0 > 0:
                num, den = num * self.lv(V(self.P[0][0]), self.QR), den * self.lv(V(self.P[0][0]), self.R)
            self.eq(s, 'result is f_N(Q+R) / f_N(R), N = 2^exp2 + sign1 2^exp1 + sign0', ring.get(ex, s, out) * den, num)
            for x, v in ((a, self.P[0]), (b, self.QR), (c, self.R)):
                self.eq(s, 'operand unchanged', ring.get(ex, s, x), v)
            self.no_leak(s, hp, None, fn)
        if not n:
            self.ob('returns', 'unknown', 'no path returns')

    def body(self):
        for s1 in (1, -1):
            for s0 in (1, -1):
                self.case('affine, signs %d %d' % (s1, s0), self.run1, 'e_miller_affine', False, s1, s0)
                self.case('projective, signs %d %d' % (s1, s0), self.run1, 'e_miller_proj', True, s1, s0)


# ---------------------------------------------------------------- type F

class FUnit(BitUnit):
    name = 'type F Miller loop'
    src = 'ecc/f_param.c'

    def at(self, l, j=0):
        """the line at (Qx X^4, Qy X^3)"""
        a, b, c = l
        x, y = self.Q[j]
        z = (P(0), P(0))
        return ((c, P(0)), z, z, tuple(b * t for t in y), tuple(a * t for t in x), z)

    def fields(self, st):
        ex = self.ex
        self.Fq2 = ring.Pair(self.Fq, Poly.var('beta'), 'Fq2')
        ring.mk_field(ex, st, self.Fq2)
        self.alpha = (Poly.var('alpha0'), Poly.var('alpha1'))
        z = (P(0), P(0))
        self.F12 = ring.PolyMod(self.Fq2, [self.alpha, z, z, z, z, z], 'Fq12')
        self.F2 = Mul(self.F12)
        ring.mk_field(ex, st, self.F2)

    def miller1(self, fn):
        self.A, self.B = P(0), Poly.var('B')
        ex, st = self.ex, self.base(1)
        ring.mk_field(ex, st, self.E)
        self.fields(st)
        q2 = lambda nm: (Poly.fresh(nm), Poly.fresh(nm))
        self.Q = ((q2('qx'), q2('qy')),)
        BitLoop(self, fn, 0, False, None)
        res = ring.new_elem(ex, st, self.F2, None)
        p = ring.new_elem(ex, st, self.E, self.P[0])
        x, y = (ring.new_elem(ex, st, self.Fq2, v) for v in self.Q[0])
        na = ring.new_elem(ex, st, self.Fq2, conj_neg(self.alpha))
        rz = self.rz(st)
        hp = heap(st, [res, rz, p, x, y, na])
        k = 0
        for s, _ in self.fn(st, fn, res, rz, p, x, y, na, mod=self.src):
            k += 1
            if not self.path_ok(s):
                continue
            self.prop(s, 'result is f_(r-1)', ring.get(ex, s, res), self.last(s), self.F2)
            for e, v in ((p, self.P[0]), (x, self.Q[0][0]), (y, self.Q[0][1]), (na, conj_neg(self.alpha))):
                self.eq(s, 'operand unchanged', ring.get(ex, s, e), v)
            self.no_leak(s, hp, None, fn)
        if not k:
            self.ob('returns', 'unknown', 'no path returns')

    def body(self):
        self.case('Miller loop', self.miller1, 'cc_miller_no_denom')
