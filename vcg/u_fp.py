"""Prime-field units: every implementation, symbolic modulus and operands, observed through
element_set_mpz / element_to_mpz only, so the representation is the code's own business."""
from .unit import *
from .gmp import cong_zero, inormal
from . import limbs
from .limbs import B

PV = 'p'


class FpUnit(Unit):
    """t-limb modulus p (odd; primality is used only through the stated facts)"""

    def __init__(self, impl='mont', t=2, ops=None, **k):
        self.impl, self.t, self.opsel = impl, t, ops
        self.name = 'Fp %s, %d-word modulus%s' % (impl, t, '' if not ops else ' ' + '/'.join(ops))
        if impl != 'naive':
            self.bounded = 'moduli of exactly %d words (all such moduli, all operand values)' % t
        else:
            self.name = 'Fp naive' + ('' if not ops else ' ' + '/'.join(ops))
        super().__init__(**k)
        self.ex.z3timeout = 15000
        self.assumptions.add("the modulus is an odd prime")

    def setup(self):
        ex, st = self.ex, State()
        p = Poly.var(PV)
        zp = to_z3(p)
        ex.assume(st, zp >= 3)
        if self.impl != 'naive':
            ex.assume(st, z3.And(zp < B ** self.t, zp > B ** (self.t - 1)))
        h = Poly.var('phalf')
        # p odd
        ex.assume(st, zp == 2 * to_z3(h) + 1)
        z = st.alloc(16, 'heap', 'modulus')
        gmp.minit(ex, st, z, p)
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        outs = self.fn(st, 'field_init_%s_fp' % self.impl, K, z)
        # the initialiser may branch on representation details; verify on each one,
        # except where the path makes p divide a power of two
        if len(outs) > 1:
            outs = [(s, r) for s, r in outs if not self.prove_cong(s, P(1), p)]
        return outs, K, p

    def var(self, st, nm):
        v = Poly.var(nm)
        self.ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(Poly.var(PV))))
        return v

    def elem(self, st, K, nm, v=None, stale=False):
        """-> list of (state, ptr, value)"""
        ex = self.ex
        e = st.alloc(ring.LAY.e_size, 'heap', nm)
        outs = []
        for s, _ in self.api(st, 'init', e, K):
            val = v if v is not None else self.var(s, nm)
            z = s.alloc(16, 'heap', 'z' + nm)
            gmp.minit(ex, s, z, val)
            for s2, _ in self.api(s, 'set_mpz', e, z):
                if stale:
                    for s3, _ in self.api(s2, 'set0', e):
                        outs.append((s3, e, P(0)))
                else:
                    outs.append((s2, e, val))
        return outs

    def value(self, st, e):
        """-> list of (state, integer)"""
        ex = self.ex
        outs = []
        st = st.fork()
        z = st.alloc(16, 'heap', 'out')
        gmp.minit(ex, st, z, 0)
        for s, _ in self.api(st, 'to_mpz', z, e):
            outs.append((s, gmp.mget(ex, s, z)))
        return outs

    def cong(self, st, name, got, want, canonical=True):
        """got = want mod p and 0 <= got < p"""
        ex = self.ex
        p = Poly.var(PV)
        if self.canary:
            want = P(want) + 1
        self.canary_depth += 1
        try:
            ok = self.prove_cong(st, P(got) - P(want), p)
            if ok:
                self.ob(name, 'proved')
            else:
                m = self.refute_cong(st, P(got), P(want))
                self.ob(name, 'refuted' if m else 'unknown', "residue %r %s" % (inormal(st, P(got) - P(want)), m or ''))
            if not canonical:
                return ok
            if canonical and not self.canary:
                z = to_z3(P(got))
                r = ex.check(st, [z3.Or(z < 0, z >= to_z3(p))])
                self.ob(name + ' canonical', 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])
        finally:
            self.canary_depth -= 1

    def prove_cong(self, st, d, p):
        ex = self.ex
        # Montgomery results: c*R = prod; R is a unit, so scale it away
        facts = list(st.data.get('montfacts', {}).values())
        for c, t, prod in reversed(facts):
            (v,) = c.vars()
            n = d.degree_in(v)
            if n:
                r = Poly()
                for k, co in d.coeffs_in(v).items():
                    r = r + co * (B ** (t * (n - k))) * prod ** k
                d = inormal(st, r)
        for k in (1, B ** self.t, B ** (2 * self.t), 2, B ** (3 * self.t)):
            if cong_zero(ex, st, d * k, p):
                return True
        return cong_sat(ex, st, d, p, self.t)

    def refute_cong(self, st, got, want):
        return None

    def do(self, op, alias, kinds):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            n = max(alias) + 1
            todo = [(st0.fork(), [], [])]
            for i in range(n):
                nxt = []
                for s, es, vs in todo:
                    nm = "abcd"[i]
                    for s2, e, v in self.elem(s, K, nm, stale=kinds[i] == '0'):
                        nxt.append((s2, es + [e], vs + [v]))
                todo = nxt
            for s, es, vs in todo:
                self.one_op(s, K, p, op, alias, es, vs)

    def one_op(self, st, K, p, op, alias, es, vs):
        ex = self.ex
        args = [es[i] for i in alias]
        ins = [vs[i] for i in alias[1:]]
        extra = []
        k = Poly.var('k')
        if op in ('invert', 'div'):
            if ins[-1].is_zero():
                return
            ex.assume(st, to_z3(ins[-1]) > 0)
            if not ex.feasible(st):
                return
        if op == 'mul_si':
            ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
        elif op == 'add_ui':
            ex.assume(st, z3.And(to_z3(k) >= 0, to_z3(k) < (1 << 64)))
            extra = [SI(64, k, 0, (1 << 64) - 1)]
        elif op == 'mul_mpz':
            z = st.alloc(16, 'heap', 'kz')
            gmp.minit(ex, st, z, k)
            extra = [z]
        for s, r in self.api(st, op, *args, *extra):
            self.path_ok(s)
            for s2, got in self.value(s, args[0]):
                w, mult = None, P(1)
                if op == 'add': w = ins[0] + ins[1]
                elif op == 'sub': w = ins[0] - ins[1]
                elif op == 'mul': w = ins[0] * ins[1]
                elif op == 'square': w = ins[0] * ins[0]
                elif op == 'double': w = ins[0] * 2
                elif op == 'neg': w = -ins[0]
                elif op == 'set': w = ins[0]
                elif op == 'halve': w, mult = ins[0], P(2)
                elif op == 'invert': w, mult = P(1), ins[0]
                elif op == 'div': w, mult = ins[0], ins[1]
                elif op in ('mul_si', 'mul_mpz'): w = ins[0] * k
                elif op == 'add_ui': w = ins[0] + k
                if mult == P(1):
                    self.cong(s2, 'value', got, w)
                else:
                    self.cong(s2, 'value', got * mult, w, canonical=False)
                    z = to_z3(got)
                    rr = ex.check(s2, [z3.Or(z < 0, z >= to_z3(p))])
                    if not self.canary:
                        self.ob('value canonical', 'proved' if rr == z3.unsat else 'unknown', repr(got)[:200])
            # the result must be indistinguishable from a freshly set element of the same value: is0 agrees
            for s2, z0 in self.api(s.fork(), 'is0', args[0]):
                c = ex.cond_of(s2, z0)
                for s3, b in (ex.branch(s2, c) if not isinstance(c, bool) else [(s2, c)]):
                    for s4, got in self.value(s3, args[0]):
                        zz = to_z3(got)
                        rr = ex.check(s4, [zz != 0] if b else [zz == 0])
                        if self.canary:
                            continue
                        self.ob('zero test agrees', 'proved' if rr == z3.unsat else 'refuted' if rr == z3.sat and got.is_const() else 'unknown', "is0=%s value=%s" % (b, repr(got)[:200]))
            if not self.canary:
                for i in range(max(alias) + 1):
                    if i != alias[0]:
                        for s2, got in self.value(s, es[i]):
                            self.cong(s2, 'operand unchanged', got, vs[i], canonical=False)

    def nul(self, op, stale):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, e, v in self.elem(st0.fork(), K, 'a', stale=stale):
                k = Poly.var('k')
                extra = []
                w = P(0) if op == 'set0' else P(1)
                if op == 'set_si':
                    ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
                    extra, w = [SI(64, k, -(1 << 63), (1 << 63) - 1)], k
                elif op == 'set_mpz':
                    z = st.alloc(16, 'heap', 'kz')
                    gmp.minit(ex, st, z, k)
                    extra, w = [z], k
                for s, _ in self.api(st, op, e, *extra):
                    for s2, got in self.value(s, e):
                        self.cong(s2, 'value', got, w)

    def pred(self, op, kinds):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kinds[0] == '0'):
                if op == 'cmp':
                    for st2, b, vb in self.elem(st, K, 'b', stale=kinds[1] == '0'):
                        for s, r in self.api(st2, 'cmp', a, b):
                            self.tr(s, 'truth value', r, to_z3(va) != to_z3(vb))
                else:
                    for s, r in self.api(st, op, a):
                        self.tr(s, 'truth value', r, to_z3(va) == (0 if op == 'is0' else 1))

    def tr(self, st, name, r, want):
        """truth of a C int against a condition on the residues; V-representation equalities need injectivity"""
        ex = self.ex
        cc = ex.cond_of(st, r)
        for s, b in (ex.branch(st, cc) if not isinstance(cc, bool) else [(st, cc)]):
            w = want if not self.canary else z3.Not(want)
            q = ex.check(s, [z3.Not(w) if b else w])
            if q != z3.unsat:
                q = self.injective(s, z3.Not(w) if b else w)
            self.canary_depth += 1
            self.ob(name, 'proved' if q == z3.unsat else 'unknown', 'branch %s want %s' % (b, want))
            self.canary_depth -= 1

    def injective(self, st, extra):
        """set_mpz maps residues injectively to stored forms: for every pair of reductions r1 = x1 - q1 p,
        r2 = x2 - q2 p of multiples of the same unit, r1 = r2 iff x1 = x2 mod p"""
        ex = self.ex
        facts = []
        ds = st.data.get('divs', {})
        p = Poly.var(PV)
        rs = []
        for (vk, mk), (q, r) in ds.items():
            if mk == p.key():
                rs.append((Poly(dict(vk)), r))
        rs.append((P(0), P(0)))
        rs.append((P(B ** self.t), None))
        for i in range(len(rs)):
            for j in range(i):
                x1, r1 = rs[i]
                x2, r2 = rs[j]
                if r1 is None or r2 is None:
                    continue
                # common unit factor B^t
                d = x1 - x2
                if limbs_div(d, B ** self.t):
                    d = Poly({m: c // B ** self.t for m, c in d.t.items()})
                zd = to_z3(d)
                # |d| < p assumed only through the path: equality of residues <=> p | d ; with |d|<p <=> d = 0
                zp = to_z3(p)
                facts.append(z3.Implies(z3.And(zd > -zp, zd < zp), (to_z3(r1) == to_z3(r2)) == (zd == 0)))
        return ex.check(st, facts + [extra])

    def cases(self):
        for op in ('add', 'sub', 'mul', 'div'):
            for al in ALIAS3:
                n = max(al) + 1
                for kk in sorted({k[:n] for k in ('aaa', 'a0a', 'aa0', '0aa', '000', 'a00', '00a', '0a0')}):
                    if op == 'div' and kk[al[2]] == '0':
                        continue
                    yield op, "%s %s %s" % (op, alname(al), kk), self.do, (op, al, kk)
        for op in ('square', 'double', 'neg', 'set', 'halve', 'invert', 'mul_si', 'mul_mpz', 'add_ui'):
            for al in ALIAS2:
                n = max(al) + 1
                for kk in sorted({k[:n] for k in ('aa', 'a0', '0a', '00')}):
                    if op in ('invert',) and kk[al[1]] == '0':
                        continue
                    yield op, "%s %s %s" % (op, alname(al), kk), self.do, (op, al, kk)
        for op in ('set0', 'set1', 'set_si', 'set_mpz'):
            for s in (False, True):
                yield op, "%s %s" % (op, 'over zero' if s else ''), self.nul, (op, s)
        for kk in ('aa', 'a0', '0a', '00'):
            yield 'cmp', "cmp " + kk, self.pred, ('cmp', kk)
        for op in ('is0', 'is1'):
            for k in 'a0':
                yield op, "%s %s" % (op, k), self.pred, (op, k)

    def body(self):
        if self.leak:
            self.case('lifecycle', self.lifecycle)
            self.case('lifecycle with a value', self.lifecycle, 'set1')
        for op, lb, f, a in self.cases():
            if self.opsel and op not in self.opsel:
                continue
            self.case(lb, f, *a)


class FpRepUnit(FpUnit):
    """The same operations over the stored form: an element is zero (as its own zero test says) or holds
    V with 0 < V < p in its limb array, standing for V / R.  set_mpz establishes V = k R, to_mpz returns
    V / R, every operation maps stored forms accordingly and re-establishes the form."""

    def __init__(self, impl='mont', t=2, ops=None, **k):
        super().__init__(impl=impl, t=t, ops=ops, **k)
        self.name = 'Fp %s stored form, %d-word modulus%s' % (impl, t, '' if not ops else ' ' + '/'.join(ops))
        self.R = P(B ** t) if impl == 'mont' else P(1)
        if impl == 'mont':
            self.ex.contracts['mont_mul'] = c_mont_mul
            self.ex.contracts['mont_reduce'] = c_mont_reduce

    def limbptr(self, st, e):
        d = ring.getcell(st, e, ring.LAY.e_data)
        ps = [v for off, (n, v) in st.objs[d.obj].cells.items() if n == 8 and isinstance(v, Ptr)]
        if not ps:
            return d
        if len(ps) != 1:
            raise Unsupported("element data holds %d pointers" % len(ps))
        return ps[0]

    def elem(self, st, K, nm, v=None, stale=False):
        ex = self.ex
        e = st.alloc(ring.LAY.e_size, 'heap', nm)
        outs = []
        for s, _ in self.api(st, 'init', e, K):
            for s2, _ in self.api(s, 'set_si', e, 1):
                val = Poly.var(nm)
                if not s2.data.get('have_' + nm):
                    ex.assume(s2, z3.And(to_z3(val) >= (0 if self.impl == 'fast' else 1), to_z3(val) < to_z3(Poly.var(PV))))
                    s2.data['have_' + nm] = True
                limbs.write(ex, s2, self.limbptr(s2, e), self.t, val)
                if self.impl != 'fast':
                    rs = self.api(s2.fork(), 'is0', e)
                    if len(rs) != 1 or ex.cond_of(rs[0][0], rs[0][1]) is not False:
                        continue        # not a stored form of a nonzero element
                if stale:
                    for s3, _ in self.api(s2, 'set0', e):
                        outs.append((s3, e, P(0)))
                else:
                    outs.append((s2, e, val))
        return outs[:1] if self.impl == 'mont' else outs

    def value(self, st, e):
        ex = self.ex
        outs = []
        for s, r in self.api(st.fork(), 'is0', e):
            c = ex.cond_of(s, r)
            for s2, b in (ex.branch(s, c) if not isinstance(c, bool) else [(s, c)]):
                outs.append((s2, P(0) if b else limbs.read(ex, s2, self.limbptr(s2, e), self.t)))
        return outs

    def one_op(self, st, K, p, op, alias, es, vs):
        ex = self.ex
        R = self.R
        args = [es[i] for i in alias]
        ins = [vs[i] for i in alias[1:]]
        extra = []
        k = Poly.var('k')
        if op in ('invert', 'div'):
            if ins[-1].is_zero():
                return
            ex.assume(st, to_z3(ins[-1]) > 0)
        if op == 'mul_si':
            ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
        elif op == 'add_ui':
            ex.assume(st, z3.And(to_z3(k) >= 0, to_z3(k) < (1 << 64)))
            extra = [SI(64, k, 0, (1 << 64) - 1)]
        elif op == 'mul_mpz':
            z = st.alloc(16, 'heap', 'kz')
            gmp.minit(ex, st, z, k)
            extra = [z]
        for s, r in self.api(st, op, *args, *extra):
            self.path_ok(s)
            for s2, got in self.value(s, args[0]):
                w, mult = None, P(1)
                if op == 'add': w = ins[0] + ins[1]
                elif op == 'sub': w = ins[0] - ins[1]
                elif op == 'mul': w, mult = ins[0] * ins[1], R
                elif op == 'square': w, mult = ins[0] * ins[0], R
                elif op == 'double': w = ins[0] * 2
                elif op == 'neg': w = -ins[0]
                elif op == 'set': w = ins[0]
                elif op == 'halve': w, mult = ins[0], P(2)
                elif op == 'invert': w, mult = R * R, ins[0]
                elif op == 'div': w, mult = ins[0] * R, ins[1]
                elif op in ('mul_si', 'mul_mpz'): w = ins[0] * k
                elif op == 'add_ui': w = ins[0] + k * R
                ok = self.cong(s2, 'value', got * mult, w, canonical=False)
                self.form(s2, got, ok and op in ('mul', 'square', 'neg', 'set', 'halve', 'double', 'invert', 'div') and not any(x.is_zero() for x in ins))
            if not self.canary:
                for i in range(max(alias) + 1):
                    if i != alias[0]:
                        for s2, got in self.value(s, es[i]):
                            self.eqv(s2, 'operand unchanged', got, vs[i])

    def inrange(self, st, got):
        p = Poly.var(PV)
        z = to_z3(got)
        r = self.ex.check(st, [z3.Or(z < 0, z >= to_z3(p))])
        if r != z3.unsat:
            n = inormal(st, got)
            for (vk, mk), (q, rem) in st.data.get('divs', {}).items():
                if mk == p.key() and inormal(st, rem) == n:
                    return z3.unsat         # a remainder modulo p
        return r

    def eqv(self, st, name, got, want):
        r = z3.unsat if got == want else self.ex.check(st, [to_z3(P(got)) != to_z3(P(want))])
        self.ob(name, 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])

    def form(self, st, got, unit=False):
        """zero test clear => 0 < V < p.  unit: V times a unit is congruent to a product of nonzero stored
        forms (just proved), and p is prime, so V is not zero"""
        if self.canary or got.is_zero():
            return
        z = to_z3(got)
        p = Poly.var(PV)
        r = self.inrange(st, got)
        self.ob('stored form below p', 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])
        r = self.ex.check(st, [z == 0])
        if r != z3.unsat and unit:
            r = z3.unsat
        self.ob('stored form nonzero', 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])

    def nul(self, op, stale):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, e, v in self.elem(st0.fork(), K, 'a', stale=stale):
                k = Poly.var('k')
                extra = []
                w = P(0) if op == 'set0' else self.R
                if op == 'set_si':
                    ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
                    extra, w = [SI(64, k, -(1 << 63), (1 << 63) - 1)], k * self.R
                elif op == 'set_mpz':
                    z = st.alloc(16, 'heap', 'kz')
                    gmp.minit(ex, st, z, k)
                    extra, w = [z], k * self.R
                if op == 'to_mpz':
                    z = st.alloc(16, 'heap', 'out')
                    gmp.minit(ex, st, z, 5)
                    for s, _ in self.api(st, 'to_mpz', z, e):
                        got = gmp.mget(ex, s, z)
                        self.cong(s, 'value', got * self.R, v, canonical=False)
                        self.canon(s, got)
                        for s2, g2 in self.value(s, e):
                            self.eqv(s2, 'operand unchanged', g2, v)
                    continue
                for s, _ in self.api(st, op, e, *extra):
                    for s2, got in self.value(s, e):
                        self.cong(s2, 'value', got, w, canonical=False)
                        self.form(s2, got)

    def canon(self, st, got):
        if self.canary:
            return
        r = self.inrange(st, got)
        self.ob('canonical', 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])

    def pred(self, op, kinds):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kinds[0] == '0'):
                if op == 'cmp':
                    for st2, b, vb in self.elem(st, K, 'b', stale=kinds[1] == '0'):
                        for s, r in self.api(st2, 'cmp', a, b):
                            self.tr(s, 'truth value', r, to_z3(va) != to_z3(vb))
                elif op == 'is0':
                    for s, r in self.api(st, op, a):
                        self.tr(s, 'truth value', r, to_z3(va) == 0)
                else:
                    # R mod p is what set1 stores
                    one = st.alloc(ring.LAY.e_size, 'heap', 'one')
                    for s1, _ in self.api(st, 'init', one, K):
                        for s2, _ in self.api(s1, 'set1', one):
                            for s3, v1 in self.value(s2, one):
                                for s, r in self.api(s3, op, a):
                                    self.tr(s, 'truth value', r, to_z3(va) == to_z3(v1))

    def cases(self):
        yield from super().cases()
        for s in (False, True):
            yield 'to_mpz', 'to_mpz %s' % ('of zero' if s else ''), self.nul, ('to_mpz', s)


# ---------------------------------------------------------------- Montgomery kernels

def mont_args(ex, st, fp):
    """the modulus behind a field-data pointer: its primelimbs hold the symbol p"""
    off = modules()['arith/montfp.c'].struct_offsets('fptr')
    t = st.objs[fp.obj].cells.get(fp.off + off['limbs'])
    if t is None:
        # limb-mode object
        t = (8, int(limbs.read(ex, st, Ptr(fp.obj, fp.off + off['limbs']), 1).const_value()))
    if not isinstance(t[1], int):
        raise Unsupported("symbolic limb count")
    return t[1]


def c_mont_mul(ex, st, a):
    """requires a, b < p (t words); ensures c < p, c*R = a*b mod p; c may be a or b"""
    if len(a) != 4 or not all(isinstance(x, Ptr) for x in a):
        return NotImplemented
    t = mont_args(ex, st, a[3])
    x, y = limbs.read(ex, st, a[1], t), limbs.read(ex, st, a[2], t)
    zp = to_z3(Poly.var(PV))
    for v in (x, y):
        if v.is_const() or ex.check(st, [z3.Or(to_z3(v) < 0, to_z3(v) >= zp)]) != z3.unsat:
            if not (v.is_const() and v.const_value() in (0, 1)):
                return NotImplemented
    pos = all(ex.check(st, [to_z3(v) <= 0]) == z3.unsat for v in (x, y))
    return mont_out(ex, st, a[0], t, x * y, pos)


def mont_out(ex, st, dst, t, prod, pos):
    """pos: the factors lie strictly between 0 and the prime p, so the result is not zero"""
    tab = st.data.setdefault('montfacts', {})
    key = prod.key()
    if key not in tab:
        c = Poly.fresh("mm")
        zc = to_z3(c)
        ex.assume(st, z3.And(zc >= (1 if pos else 0), zc < to_z3(Poly.var(PV))))
        tab[key] = (c, t, prod)
    limbs.write(ex, st, dst, t, tab[key][0])
    return [(st, None)]


def c_mont_reduce(ex, st, a):
    """requires y < p*R (2t words); ensures x < p, x*R = y mod p; y is scratch afterwards"""
    if len(a) != 3 or not all(isinstance(x, Ptr) for x in a):
        return NotImplemented
    t = mont_args(ex, st, a[2])
    y = limbs.read(ex, st, a[1], 2 * t)
    if ex.check(st, [z3.Or(to_z3(y) < 0, to_z3(y) >= to_z3(Poly.var(PV)))]) != z3.unsat:
        return NotImplemented
    for j in range(2 * t):
        w = Poly.fresh("scratch")
        ex.assume(st, z3.And(to_z3(w) >= 0, to_z3(w) < B))
        limbs.write(ex, st, Ptr(a[1].obj, a[1].off + 8 * j), 1, w)
    return mont_out(ex, st, a[0], t, y, ex.check(st, [to_z3(y) <= 0]) == z3.unsat)


class MontKernelUnit(FpUnit):
    """mont_mul and mont_reduce meet the contracts their callers are checked against"""

    def __init__(self, t=2, **k):
        super().__init__(impl='mont', t=t, **k)
        self.name = 'Montgomery kernels, %d words' % t

    def kmul(self, alias):
        outs, K, p = self.setup()
        ex = self.ex
        t = self.t
        for st0, _ in outs:
            st = st0.fork()
            fd = ring.getcell(st, K, ring.LAY.off['data'])
            bufs, vals = [], []
            for i in range(max(alias) + 1):
                b = st.alloc(8 * t, 'heap', 'buf%d' % i)
                v = self.var(st, "abc"[i])
                limbs.write(ex, st, b, t, v)
                bufs.append(b)
                vals.append(v)
            for s, _ in self.fn(st, 'mont_mul', *[bufs[i] for i in alias], fd, mod=modules()['arith/montfp.c']):
                got = limbs.read(ex, s, bufs[alias[0]], t)
                self.cong(s, 'c*R = a*b mod p', got * B ** t, vals[alias[1]] * vals[alias[2]], canonical=False)
                self.post(s, got)
                for i in range(max(alias) + 1):
                    if i != alias[0] and not self.canary:
                        g = limbs.read(ex, s, bufs[i], t)
                        r = z3.unsat if g == vals[i] else ex.check(s, [to_z3(g) != to_z3(vals[i])])
                        self.ob('operand unchanged', 'proved' if r == z3.unsat else 'unknown')

    def post(self, s, got):
        if self.canary:
            return
        z = to_z3(got)
        r = self.ex.check(s, [z3.Or(z < 0, z >= to_z3(Poly.var(PV)))])
        self.ob('result below p', 'proved' if r == z3.unsat else 'unknown', repr(got)[:200])

    def kred(self, same):
        outs, K, p = self.setup()
        ex = self.ex
        t = self.t
        for st0, _ in outs:
            st = st0.fork()
            fd = ring.getcell(st, K, ring.LAY.off['data'])
            y = st.alloc(16 * t, 'heap', 'y')
            v = self.var(st, 'a')
            limbs.write(ex, st, y, t, v)
            limbs.write(ex, st, Ptr(y.obj, 8 * t), t, P(0))
            x = st.alloc(8 * t, 'heap', 'x')
            for s, _ in self.fn(st, 'mont_reduce', x, y, fd, mod=modules()['arith/montfp.c']):
                got = limbs.read(ex, s, x, t)
                self.cong(s, 'x*R = y mod p', got * B ** t, v, canonical=False)
                self.post(s, got)

    def body(self):
        for al in ALIAS3:
            self.case("mont_mul " + alname(al), self.kmul, al)
        self.case("mont_reduce", self.kred, False)


def limbs_div(p, m):
    return all(isinstance(c, int) and c % m == 0 for c in p.t.values())


def cong_sat(ex, st, d, p, t):
    """d == 0 mod p using path equalities: drop multiples of p, then find an entailed multiple"""
    r = inormal(st, d)
    (mono, _), = p.t.items()
    rest = Poly({m: c for m, c in r.t.items() if gmp.mono_div(m, mono) is None})
    if rest.is_zero():
        return True
    zr, zp = to_z3(rest), to_z3(p)
    for k in (0, 1, -1, 2, -2, 3, -3):
        if ex.check(st, [zr != k * zp]) == z3.unsat:
            return True
    for (vk, mk), (q, rem) in st.data.get('divs', {}).items():
        if mk == p.key() and not q.is_const():
            for sg in (1, -1):
                zq = to_z3(rest + q * p * sg)
                for k in (0, 1, -1):
                    if ex.check(st, [zq != k * zp]) == z3.unsat:
                        return True
    # input symbols that the path makes zero
    for v in sorted(rest.vars()):
        x = Poly({((v, 1),): 1})
        if x != p and ex.check(st, [to_z3(x) != 0]) == z3.unsat:
            rest = rest.subst(v, P(0))
    if all(gmp.mono_div(m, mono) is not None for m in rest.t):
        return True
    # modular inverses are units: multiplying by one loses nothing
    for i in st.data.get('invs', {}).values():
        if not i.is_const() and not (i.vars() & rest.vars()):
            if zero_rem(ex, st, inormal(st, rest * i), p, mono):
                return True
    return zero_rem(ex, st, rest, p, mono)


def zero_rem(ex, st, rest, p, mono):
    # remainders that the path makes zero: x = q*p + r with r = 0, so x = 0 mod p
    for (vk, mk), (q, rem) in st.data.get('divs', {}).items():
        if mk != p.key() or rem.is_const():
            continue
        if ex.check(st, [to_z3(rem) != 0]) != z3.unsat and ex.check(st, [to_z3(inormal(st, rem)) != 0]) != z3.unsat:
            continue
        x = inormal(st, rem + q * p)
        x = Poly({m: c for m, c in x.t.items() if gmp.mono_div(m, mono) is None})
        if x.is_zero():
            continue
        lead = max(x.t, key=lambda m: (sum(e for _, e in m), m))
        lc = x.t[lead]
        for _ in range(6):
            e = Poly()
            hit = False
            for m, c in rest.t.items():
                cof = gmp.mono_div(m, lead)
                if cof is None:
                    e = e + Poly({m: c * lc})
                else:
                    hit = True
                    e = e + Poly({m: c * lc}) - Poly({cof: c}) * x
            if not hit:
                break
            rest = inormal(st, e)          # lc is a power of two times a unit: invertible mod p
            rest = Poly({m: c for m, c in rest.t.items() if gmp.mono_div(m, mono) is None})
        if rest.is_zero():
            return abs(lc) & (abs(lc) - 1) == 0
    return False


if __name__ == '__main__':
    from collections import Counter
    modules('/tmp/w/ll')
    impl, t = sys.argv[1], int(sys.argv[2])
    if impl == 'kernel':
        u = MontKernelUnit(t=t, deadline=800)
    else:
        u = (FpRepUnit if 'rep' in sys.argv else FpUnit)(impl=impl, t=t, ops=sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] != '-' else None, deadline=600)
    if 'canary' in sys.argv: u.canary = True
    r = u.run()
    for n, s, d in r['results']:
        if s != 'proved':
            print(n, s, d.strip().replace('\n', '|')[-250:])
    print(Counter(x[1] for x in r['results']), round(r['wall'], 1), round(r['solver'], 1))
