"""Squares and square roots (C06)"""
from .unit import *
from . import u_fp, u_quad
from .loops import LoopInv
from .u_pow import hi


# ---------------------------------------------------------------- Fp: is_sqr is the Legendre symbol of the value

class FpSqr:
    """mixed into the Fp units: is_sqr and sgn against the integer value of the element"""

    def issqr(self, kind):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kind == '0'):
                for s, r in self.api(st, 'is_sqr', a):
                    cc = ex.cond_of(s, r)
                    for s1, b in (ex.branch(s, cc) if not isinstance(cc, bool) else [(s, cc)]):
                        for s2, iz in self.iszero(s1, a):
                            if iz:
                                self.holds(s2, 'zero is a square', z3.BoolVal(b))
                                continue
                            ok = False
                            for base, m, j in s2.data.get('jaclist', []):
                                if m == p and self.isvalue(s2, base, a):
                                    ok = True
                                    self.holds(s2, 'true exactly when the Legendre symbol of the value is 1', (to_z3(j) == 1) == b)
                            if not ok:
                                # decided without the symbol of the value: nothing supports the answer
                                self.canary_depth += 1
                                self.ob('true exactly when the Legendre symbol of the value is 1', 'failed', 'Legendre symbol of the value not computed')
                                self.canary_depth -= 1

    def iszero(self, st, a):
        for s, r in self.api(st, 'is0', a):
            c = self.ex.cond_of(s, r)
            for s2, b in (self.ex.branch(s, c) if not isinstance(c, bool) else [(s, c)]):
                yield s2, b

    def isvalue(self, st, base, a):
        """base = integer value of a modulo p"""
        for s, v in self.intval(st, a):
            if self.prove_cong(s, P(base) - v, Poly.var(u_fp.PV)):
                return True
        return False

    def intval(self, st, e):
        return u_fp.FpUnit.value(self, st, e)

    def holds(self, st, name, goal):
        if self.canary:
            goal = z3.Not(goal)
        r = self.ex.check(st, [z3.Not(goal)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(goal)[:200])
        self.canary_depth -= 1

    def body(self):
        for k in 'a0':
            self.case("is_sqr " + k, self.issqr, k)


class FpSqrUnit(FpSqr, u_fp.FpUnit):
    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'squareness in ' + self.name


class FpRepSqrUnit(FpSqr, u_fp.FpRepUnit):
    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'squareness in ' + self.name


# ---------------------------------------------------------------- quadratic extensions

class ChiBase(ring.Base):
    """finite field of odd characteristic: of two nonzero values whose product is a nonresidue exactly one is a square"""

    def __init__(self, nqr, cands, name='F'):
        super().__init__(name)
        self.n, self.cands = nqr, cands

    def sqr_c(self, ex, st, v):
        v = ring.value_form(st, v)
        b = super().sqr_c(ex, st, v)
        lst = st.data.setdefault('chi', [])
        st.data['chi'] = lst = list(lst)
        if isinstance(b, bool) or any(u == v for u, _ in lst):
            return b
        for t in self.cands:
            t = t(st) if callable(t) else t
            if t is None:
                continue
            # v itself a square times nqr, or a square
            for u, c in lst:
                if ring.prove_zero(st, u * v - self.n * t * t, deep=False):
                    z = ring.zero_cond(ex, st, t)
                    z = z3.BoolVal(z) if isinstance(z, bool) else z
                    ex.assume(st, z3.Implies(z3.Not(z), c != b))
        lst.append((v, b))
        return b


class QuadSqrtUnit(u_quad.QuadUnit):
    def __init__(self, kind='fq', **k):
        super().__init__(kind=kind, **k)
        self.name = 'square roots in the quadratic extension ' + kind
        self.assumptions.add("lemma (norm criterion): an element of the extension is a square iff its norm is a square of the base field")
        self.assumptions.add("lemma: of two nonzero base elements whose product is a nonresidue exactly one is a square")

    def base(self, ex, st):
        nqr = Poly.var('nqr') if self.kind == 'fq' else P(-1)
        x, y = Poly.var('ax'), Poly.var('ay')
        return ChiBase(nqr, [y * P(Fraction(1, 2)), lambda s: x * ring.inverse(ex, s, nqr) if self.kind == 'fq' else x])

    def setup(self):
        keep = ring.Base
        ring.Base = lambda name: self.base(self.ex, None)
        try:
            st, K, S = super().setup()
        finally:
            ring.Base = keep
        if self.kind == 'fq':
            st.nonzeros.append(Poly.var('nqr'))
        return st, K, S

    def norm(self, v):
        nqr = Poly.var('nqr') if self.kind == 'fq' else P(-1)
        return v[0] * v[0] - nqr * v[1] * v[1]

    def sqrt(self, same, zero):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        if zero:
            ring.add_zero(st, v[1])
        else:
            st.nonzeros.append(v[1])
            c = S.base.sqr_c(self.ex, st, self.norm(v))
            if not isinstance(c, bool):
                self.ex.assume(st, c)
        if same:
            r = a
        else:
            st, r, _ = self.view_new(st, K, 'b')
        for s, _ in self.api(st, 'sqrt', r, a):
            if not self.path_ok(s):
                continue
            g = self.read(s, r)
            self.eq(s, 'root squared is the operand', S.mul(g, g), v)
            if not same:
                self.eq(s, 'operand unchanged', self.read(s, a), v)

    def issqr(self):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        for s, r in self.api(st, 'is_sqr', a):
            c = S.base.sqr_c(self.ex, s, self.norm(v))
            self.truth(s, 'square exactly when the norm is', r, c)
            self.eq(s, 'operand unchanged', self.read(s, a), v)

    def body(self):
        for same in (False, True):
            for z in (False, True):
                self.case("sqrt %s, %s" % ("(a,a)" if same else "(b,a)", "in the base field" if z else "outside the base field"), self.sqrt, same, z)
        self.case("is_sqr", self.issqr)


# ---------------------------------------------------------------- Tonelli-Shanks

LA, LG, LH = Poly.var('log_a'), Poly.var('log_g'), Poly.var('log_-1')


def lattice(goal, rels, mults):
    """is goal an integer combination of (relation x multiplier)?"""
    if goal.is_zero():
        return True
    vec = [r * m for r in rels for m in mults]
    s = z3.Solver()
    s.set('timeout', 5000)
    cs = [z3.Int('c%d' % i) for i in range(len(vec))]
    mons = set(goal.t)
    for v in vec:
        mons |= set(v.t)
    for m in mons:
        s.add(z3.Sum([c * int(v.t[m]) for c, v in zip(cs, vec) if m in v.t] + [z3.IntVal(0)]) == int(goal.t.get(m, 0)))
    return s.check() == z3.sat


class RootGroup(ring.Base):
    """multiplicative group of a finite field of odd order, written by logarithms of a, of the nonresidue g and of -1; None is zero"""

    def __init__(self):
        super().__init__('F')

    def form(self, st, v):
        for x, p in st.data.get('tsub', ()):
            v = v.subst(x, p)
        return v

    def rels(self, st):
        return [self.form(st, r) for r in st.data.get('rels', ())]

    def member(self, st, v):
        v = self.form(st, v)
        rs = self.rels(st)
        ms = [P(1)] + [Poly({((x, 1),): 1}) for x in sorted(v.vars() | {y for r in rs for y in r.vars()}) if not sym_name(x).startswith('log_')]
        return lattice(v, rs, ms)

    def read(self, ex, st, d):
        v = super().read(ex, st, d)
        return None if isinstance(v, tuple) else v

    def write(self, ex, st, d, v):
        super().write(ex, st, d, ('zero',) if v is None else v)

    def one(self): return P(0)
    def zero(self): return None
    def mul(self, a, b): return None if a is None or b is None else a + b

    def s_set0(self, ex, st, n): ring.put(ex, st, n, None)

    def s_square(self, ex, st, n, a):
        v = ring.get(ex, st, a)
        ring.put(ex, st, n, self.mul(v, v))

    def s_invert(self, ex, st, n, a):
        v = ring.get(ex, st, a)
        if v is None:
            raise Unsupported("inverse of zero")
        ring.put(ex, st, n, -v)

    def s_div(self, ex, st, n, a, b):
        u, v = ring.get(ex, st, a), ring.get(ex, st, b)
        if v is None:
            raise Unsupported("division by zero")
        ring.put(ex, st, n, None if u is None else u - v)

    def s_pow_mpz(self, ex, st, n, a, z):
        v, e = ring.get(ex, st, a), gmp.mget(ex, st, z)
        if v is None:
            if ex.check(st, [to_z3(e) <= 0]) != z3.unsat:
                raise Unsupported("zero to a power not shown positive")
            ring.put(ex, st, n, None)
            return
        ring.put(ex, st, n, v * e)

    def s_is0(self, ex, st, a):
        return 1 if ring.get(ex, st, a) is None else 0

    def s_is1(self, ex, st, a):
        v = ring.get(ex, st, a)
        if v is None:
            return 0
        if self.member(st, v):
            return 1
        if self.member(st, v - LH):
            return 0                    # -1 is not 1: odd characteristic
        if not self.member(st, v * 2):
            raise Unsupported("comparison with one of a value not shown to be a root of unity")
        outs = []
        s0 = st.fork()
        for s, r in ((s0, 1), (st, 0)):
            s.data['rels'] = tuple(s.data['rels']) + ((v,) if r else (v - LH,))
            outs.append((s, r))
        return outs


class TonelliInv(LoopInv):
    """a g^-e has order dividing (q - 1)/2^(i-1), and e is even and below 2^(i-1)"""

    def state(self, L):
        i = L.int('i', 64, signed=False)
        e = L.mpz('e')
        return i, e

    def havoc(self, L):
        u = self.unit
        st = L.st
        i, tp, e2, b2 = Poly.fresh('i'), Poly.fresh('T'), Poly.fresh('E'), Poly.fresh('B')
        L.set_int('i', i, 2, (1 << 40), 64)
        L.assume(z3.And(to_z3(i) <= to_z3(u.S) + 1, to_z3(tp) >= 1, to_z3(e2) >= 0, to_z3(b2) >= 1, to_z3(e2) < to_z3(b2)))
        st.data['T'] = ((P(1), u.h), (u.S, u.t), (i - 1, tp))
        st.data['B'] = ((P(1), P(2)), (i - 1, b2 * 2))
        st.data['tsub'] = ()
        L.set_mpz('e', e2 * 2)
        st.data['rels'] = u.base_rels() + ((tp * (LA - e2 * 2 * LG),) if not u.zero else ())

    def check(self, L, tag):
        u = self.unit
        i, e = self.state(L)
        st = L.st
        D = u.D
        if not u.zero:
            T = u.T(st, i - 1)
            ok = T is not None and D.member(st, T * (LA - e * LG) + (LG if u.canary else P(0)))
            u.verdict('order of a g^-e divides (q-1)/2^(i-1), ' + tag, ok)
        B = u.pow2(st, i - 1)
        f = D.form(st, e)
        ok = B is not None and all(c % 2 == 0 for c in f.t.values())
        u.verdict('e even, ' + tag, ok and not u.canary)
        if B is not None:
            u.holds(st, 'e below 2^(i-1), ' + tag, z3.And(to_z3(e) >= 0, to_z3(e) < to_z3(B)))
        u.holds(st, 'position, ' + tag, z3.And(to_z3(i) >= 2, to_z3(i) <= to_z3(u.S) + 1))


class TonelliUnit(Unit):
    name = 'square roots by Tonelli-Shanks in an abstract finite field'
    holds = FpSqr.holds

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("the multiplicative group of the field is commutative, g^((q-1)/2) = -1 for the nonresidue g, a^((q-1)/2) = 1 for a nonzero square a, and 1 has the square roots 1 and -1 only")
        self.h, self.S, u = Poly.var('h'), Poly.var('s'), Poly.var('u')
        self.t, self.u = u * 2 + 1, u
        C = self.ex.contracts
        C['__gmpz_scan1'] = self.c_scan1
        old = C['__gmpz_tdiv_q_2exp']
        C['__gmpz_tdiv_q_2exp'] = lambda ex, st, a: self.c_shift(ex, st, a, old)
        olds = C['__gmpz_setbit']
        C['__gmpz_setbit'] = lambda ex, st, a: self.c_setbit(ex, st, a, olds)

    def verdict(self, name, ok):
        self.canary_depth += 1
        self.ob(name, 'proved' if ok else 'failed', '' if ok else 'not derivable from the invariant')
        self.canary_depth -= 1

    def base_rels(self):
        return (self.h * LG - LH, LH * 2) + ((self.h * LA,) if not self.zero else ())

    def eqz(self, st, a, b):
        return self.ex.check(st, [to_z3(P(a)) != to_z3(P(b))]) == z3.unsat

    def T(self, st, k):
        """(q-1)/2^k for k <= s"""
        hit = [v for kk, v in st.data['T'] if self.eqz(st, kk, k)]
        if not hit:
            return None
        v = hit[0]
        # the names of one number are equal
        for w in hit[1:]:
            for x, y in ((w, v), (v, w)):
                if len(x.t) == 1 and x.vars() and x.t[list(x.t)[0]] == 1 and not any(p == x for p, _ in ()):
                    (m,) = x.t
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] not in y.vars():
                        st.data['tsub'] = tuple(st.data.get('tsub', ())) + ((m[0][0], y),)
                        break
        return v

    def pow2(self, st, k):
        for d in (0, 1, -1):
            for kk, v in st.data['B']:
                if self.eqz(st, kk + d, k):
                    return v * 2 if d == 1 else v if d == 0 else None
        return None

    def c_scan1(self, ex, st, a):
        v = gmp.mget(ex, st, a[0])
        if a[1] != 0 or not v == self.h * 2:
            raise Unsupported("scan1")
        return SI(64, self.S, 1, 1 << 40)

    def c_shift(self, ex, st, a, old):
        if isinstance(a[2], int):
            return old(ex, st, a)
        v = gmp.mget(ex, st, a[1])
        k = ex.as_u(st, a[2], 64)
        if not v == self.h * 2:
            raise Unsupported("symbolic shift")
        r = self.T(st, k)
        if r is None:
            if ex.check(st, [z3.Or(to_z3(k) > to_z3(self.S), to_z3(k) < 1)]) != z3.unsat:
                raise Unsupported("shift beyond the power of two in q - 1")
            p = self.T(st, k - 1)
            if p is None or len(p.t) != 1:
                raise Unsupported("shift not next to a known one")
            r = Poly.fresh('T')
            ex.assume(st, z3.And(to_z3(r) >= 1, to_z3(p) == 2 * to_z3(r)))
            (m,) = p.t
            st.data['T'] = tuple(st.data['T']) + ((k, r),)
            sub = ((m[0][0], r * 2),)
            b = self.pow2(st, k - 1)
            if b is not None and list(self.h.vars())[0] != m[0][0]:
                sub += ((list(self.h.vars())[0], b * r),)
            st.data['tsub'] = tuple(st.data.get('tsub', ())) + sub
        gmp.mset(ex, st, a[0], r)

    def c_setbit(self, ex, st, a, old):
        if isinstance(a[1], int):
            return old(ex, st, a)
        v = gmp.mget(ex, st, a[0])
        b = self.pow2(st, ex.as_u(st, a[1], 64))
        if b is None or ex.check(st, [z3.Or(to_z3(v) < 0, to_z3(v) >= to_z3(b))]) != z3.unsat:
            raise Unsupported("symbolic setbit")
        gmp.mset(ex, st, a[0], v + b)

    def run1(self, same, zero):
        ex = self.ex
        self.zero = zero
        ex.loopspecs = {}
        TonelliInv(self, 'element_tonelli')
        st = State()
        self.D = D = RootGroup()
        K = ring.mk_field(ex, st, D)
        st.wobj(K.obj).mpz[ring.LAY.off['order']] = self.h * 2 + 1
        ex.assume(st, z3.And(to_z3(self.h) >= 1, to_z3(self.S) >= 1, to_z3(self.S) < 1 << 40, to_z3(self.u) >= 0))
        st.data['T'] = ((P(1), self.h), (self.S, self.t))
        st.data['B'] = ((P(1), P(2)),)
        st.data['rels'] = self.base_rels()
        g = ring.new_elem(ex, st, D, LG, 'nqr')
        st.wobj(K.obj).cells[ring.LAY.off['nqr']] = (8, g)
        a = ring.new_elem(ex, st, D, None, 'a')
        ring.put(ex, st, a, None if zero else LA)
        x = a
        if not same:
            x = ring.new_elem(ex, st, D, Poly.var('log_junk'), 'x')
        for s, _ in self.fn(st, 'element_tonelli', x, a):
            v = ring.get(ex, s, x)
            if zero:
                self.verdict('root of zero is zero', v is None and not self.canary)
            elif v is None:
                self.verdict('root squared is the operand', False)
            else:
                self.T(s, self.S)
                self.verdict('root squared is the operand', D.member(s, v * 2 - LA + (LG if self.canary else P(0))))
            if not same:
                w = ring.get(ex, s, a)
                self.verdict('operand unchanged', (w is None if zero else w == LA) and not self.canary)
            w = ring.get(ex, s, g)
            self.verdict('nonresidue unchanged', w == LG and not self.canary)

    def euler(self, kind):
        """squareness in polynomial extensions: the (q-1)/2-th power is one"""
        ex = self.ex
        ex.loopspecs = {}
        st = State()
        self.zero = kind == 'zero'
        self.D = D = RootGroup()
        K = ring.mk_field(ex, st, D)
        st.wobj(K.obj).mpz[ring.LAY.off['order']] = self.h * 2 + 1
        ex.assume(st, to_z3(self.h) >= 1)
        st.data['rels'] = (self.h * LG - LH, LH * 2) + ((self.h * LA - (LH if kind == 'nonsquare' else P(0)),))
        a = ring.new_elem(ex, st, D, None, 'a')
        ring.put(ex, st, a, None if self.zero else LA)
        for s, r in self.fn(st, 'polymod_is_sqr', a, mod='arith/poly.c'):
            self.truth(s, 'truth value', r, kind != 'nonsquare')
            w = ring.get(ex, s, a)
            self.verdict('operand unchanged', (w is None if self.zero else w == LA) and not self.canary)

    def nqr(self):
        ex = self.ex
        ex.loopspecs = {}

        class Any(LoopInv):
            def havoc(self, L): pass
            def check(self, L, tag): pass
        Any(self, 'field_gen_nqr')
        st = State()
        F = ring.Base('F')
        K = ring.mk_field(ex, st, F)
        for s, r in self.fn(st, 'field_get_nqr', K):
            v = ring.get(ex, s, r)
            c = F.sqr_c(ex, s, v)
            self.holds(s, 'a nonresidue', z3.Not(c) if not isinstance(c, bool) else z3.BoolVal(not c))
            for s2, r2 in self.fn(s, 'field_get_nqr', K):
                self.verdict('the same one every time', r2 == r and ring.get(ex, s2, r2) == v and not self.canary)

    def body(self):
        for zero in (False, True):
            for same in (False, True):
                self.case("sqrt %s of %s" % ("(a,a)" if same else "(x,a)", "zero" if zero else "a nonzero square"), self.run1, same, zero)
        self.case("nonresidue", self.nqr)
        for k in ('zero', 'square', 'nonsquare'):
            self.case("squareness by Euler's criterion, " + k, self.euler, k)
