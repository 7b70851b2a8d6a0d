"""Generic pairing layer (C11): the wrappers of pbc_pairing.h, the defaults of ecc/pairing.c and GT.

G1 and G2 have prime order r and their elements are represented by logarithms, elements of Z_r; a value
of GT is represented by its logarithm to the base e(g1, g2).  The contract on a family's own `map` is
map(xP, yQ) = e^(xy) for finite points; its products and preprocessing satisfy the same equation."""
from .unit import *
from . import u_log, u_pow
from .u_log import LogGroup, Zr
from .loops import LoopInv
from .ir import IntT, PtrT


class KField(LogGroup):
    """multiplicative group of the field GT lives in; 0 is not an element of the group"""

    def zt(self, st, v):
        for k, b in st.data.get('ztab', ()):
            if k == v:
                return b
        return False

    def s_set0(self, ex, st, n): raise Unsupported("zero of the field in GT")
    s_add = s_sub = s_neg = s_doub = s_set0

    def s_is0(self, ex, st, a):
        return ring.bool_result(ex, st, self.zt(st, ring.get(ex, st, a)))

    def maybe_zero(self, ex, st, n):
        v = Poly.fresh('k')
        b = z3.Bool('iszero_%s' % v)
        st.data['ztab'] = tuple(st.data.get('ztab', ())) + ((v, b),)
        ring.put(ex, st, n, v)
        return v

    def s_random(self, ex, st, n):
        st.data['drawn'] = self.maybe_zero(ex, st, n)

    def s_from_hash(self, ex, st, n, d, ln):
        st.data['hashed'] = (d, ln, self.maybe_zero(ex, st, n))


class ElemArray:
    """array of n elements of one group, every entry arbitrary"""

    def __init__(self, D, n, nm):
        self.D, self.n, self.nm = D, P(n), nm

    def havocked(self):
        return self

    def w_load(self, ex, st, o, off, ty, n):
        i, r = self.index(ex, st, off)
        if r == ring.LAY.e_field:
            return self.D.ptr
        raise Unsupported("data pointer of an abstract array entry")

    def w_store(self, ex, st, o, off, ty, n, v):
        raise MemError("store into an array of inputs")

    def index(self, ex, st, off):
        S = ring.LAY.e_size
        off = P(off)
        c = int(off.t.get((), 0))
        r = c % S
        p = off - r
        q = Poly({m: k // S for m, k in p.t.items()})
        if not (q * S == p):
            raise Unsupported("misaligned entry")
        if ex.check(st, [z3.Or(to_z3(q) < 0, to_z3(q) >= to_z3(self.n))]) != z3.unsat:
            raise MemError("entry outside the array of inputs")
        return q, r

    def value(self, ex, st, e):
        i, r = self.index(ex, st, e.off)
        for k, v in st.data.get('arr' + self.nm, ()):
            if k == i or ex.check(st, [to_z3(k) != to_z3(i)]) == z3.unsat:
                return v
        v = Poly.fresh(self.nm)
        st.data['arr' + self.nm] = tuple(st.data.get('arr' + self.nm, ())) + ((i, v),)
        return v


_get = ring.get


def get(ex, st, e):
    if isinstance(e, Ptr) and isinstance(st.objs[e.obj].ghost, ElemArray):
        return st.objs[e.obj].ghost.value(ex, st, e)
    return _get(ex, st, e)


ring.get = get


class Runs(LoopInv):
    """out = S(i): the product over the pairs before i"""

    def havoc(self, L):
        i = Poly.fresh('i')
        L.set_int('i', i, 0, 1 << 30)
        L.assume(to_z3(i) <= to_z3(self.unit.n) + 1)
        L.set_int('j', Poly.fresh('j'), 0, 1 << 30)
        self.unit.set_gt(L.st, L.arg('out'), self.unit.S(L.st, i))
        L.st.data['runs'] = i

    def check(self, L, tag):
        u, st = self.unit, L.st
        i = L.int('i')
        got = u.gt(st, L.arg('out'))
        u.range(st, 'index in range (%s)' % tag, z3.And(to_z3(i) >= 0, to_z3(i) <= to_z3(u.n) + 1))
        if tag == 'entry':
            u.same(st, 'product over no pair (entry)', got, u.S(st, P(0)))
            u.range(st, 'starts with the first pair', to_z3(i) == 0)
        else:
            u.same(st, 'product over the pairs before i', got, u.S(st, i))


class Scan(LoopInv):
    """no pair from i up to j contains the identity"""

    def havoc(self, L):
        j = Poly.fresh('j')
        i = L.int('i')
        L.set_int('j', j, 0, 1 << 30)
        L.assume(z3.And(to_z3(j) >= to_z3(i), to_z3(j) <= to_z3(self.unit.n)))
        L.st.data['nonid'] = ((i, j),)
        L.st.data['scan'] = j

    def check(self, L, tag):
        u, st = self.unit, L.st
        i, j = L.int('i'), L.int('j')
        if tag == 'entry':
            u.range(st, 'run starts at i', to_z3(j) == to_z3(i))
            return
        j0 = st.data['scan']
        u.range(st, 'scan advances by one', to_z3(j) == to_z3(j0) + 1)
        for D, nm in ((u.in1, 'x'), (u.in2, 'y')):
            c = ring.zero_cond(L.ex, st, D.value(L.ex, st, Ptr(0, j0 * ring.LAY.e_size)))
            u.range(st, 'entry of %s passed over is not the identity' % nm, z3.BoolVal(not c) if isinstance(c, bool) else z3.Not(c))


class Prod(LoopInv):
    """out = S(i)"""

    def havoc(self, L):
        i = Poly.fresh('i')
        L.set_int('i', i, 1, 1 << 30)
        L.assume(to_z3(i) <= to_z3(self.unit.n))
        ring.put(L.ex, L.st, L.arg('out'), self.unit.S(L.st, i))
        L.set_elem('tmp', Poly.fresh('tmp'))

    def check(self, L, tag):
        u, st = self.unit, L.st
        i = L.int('i')
        u.range(st, 'index in range (%s)' % tag, z3.And(to_z3(i) >= 1, to_z3(i) <= to_z3(u.n)))
        u.same(st, 'product over the first i pairs (%s)' % tag, ring.get(L.ex, st, L.arg('out')), u.S(st, i))


class PairUnit(Unit):
    name = 'generic pairing layer'

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions.add("the family's own map returns e(xP, yQ) = e^(xy) on finite points (C09, C10, C16), and its own preprocessing and products agree with it")
        self.assumptions.add("the groups have prime order, represented by logarithms in Z_r")
        C = self.ex.contracts
        C['#map'] = self.c_map
        C['#prod'] = self.c_prod
        C['#initp'] = self.c_initp
        C['#finalpow'] = self.c_finalpow
        self.in1 = self.in2 = None

    # ---- obligations
    def range(self, st, name, g):
        if self.leak:
            return
        if self.canary:
            g = z3.Not(g)
        r = self.ex.check(st, [z3.Not(g)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(g)[:200])
        self.canary_depth -= 1

    def same(self, st, name, got, want):
        self.eq(st, name, self.rewrite(st, got), self.rewrite(st, want))

    # ---- S(k): sum of x_i y_i over i < k; pairs past the end contribute nothing
    def S(self, st, k):
        k = P(k)
        if k.is_zero():
            return P(0)
        t = st.data.get('S', ())
        for i, v in t:
            if i == k:
                return v
        v = Poly.fresh('S')
        st.data['S'] = tuple(t) + ((k, v),)
        return v

    def rewrite(self, st, p):
        """S(k) -> S(n) when k >= n; S(k) -> S(j) when k = j; S(j + 1) -> S(j) + x_j y_j"""
        ex = self.ex
        for _ in range(4):
            for k, v in st.data.get('S', ()):
                s = next(iter(v.vars()))
                if s not in p.vars():
                    continue
                if ex.check(st, [to_z3(k) != 0]) == z3.unsat:
                    p = p.subst(s, P(0))
                    continue
                if k != self.n and ex.check(st, [to_z3(k) < to_z3(self.n)]) == z3.unsat:
                    p = p.subst(s, self.S(st, self.n))
                    continue
                for j, w in st.data.get('S', ()):
                    if w is v or k == self.n and not ex.check(st, [to_z3(k) != to_z3(j)]) == z3.unsat:
                        continue
                    if ex.check(st, [to_z3(k) != to_z3(j)]) == z3.unsat:
                        if st.data['S'].index((j, w)) < st.data['S'].index((k, v)):
                            p = p.subst(s, w)
                            break
                else:
                    k1 = k - 1
                    if k.t.get((), 0) >= 1 and self.in1 is not None and ex.check(st, [z3.Not(z3.And(to_z3(k1) >= 0, to_z3(k1) < to_z3(self.n)))]) == z3.unsat:
                        e = Ptr(0, k1 * ring.LAY.e_size)
                        p = p.subst(s, self.S(st, k1) + self.in1.value(ex, st, e) * self.in2.value(ex, st, e))
        return p

    # ---- contracts
    def finite(self, st, what, e):
        g = st.objs[e.obj].ghost
        if isinstance(g, ElemArray):
            i, _ = g.index(self.ex, st, e.off)
            for lo, hi in st.data.get('nonid', ()):
                if self.ex.check(st, [z3.Not(z3.And(to_z3(lo) <= to_z3(i), to_z3(i) < to_z3(hi)))]) == z3.unsat:
                    self.range(st, what, z3.BoolVal(True))
                    return
        c = ring.zero_cond(self.ex, st, ring.get(self.ex, st, e))
        self.range(st, what, z3.BoolVal(not c) if isinstance(c, bool) else z3.Not(c))

    def c_map(self, ex, st, a):
        out, x, y, p = a
        self.flag('pairing handed on', p == self.pr)
        self.finite(st, 'first argument of map is finite', x)
        self.finite(st, 'second argument of map is finite', y)
        for q, D, nm in ((x, self.G1, 'G1'), (y, self.G2, 'G2')):
            f = ex.load(st, q, PtrT(), self.mod)
            self.flag('argument of map is in ' + nm, f == D.ptr)
        self.flag('map writes to the field of GT', ring.edesc(st, out) is self.K)
        ring.put(ex, st, out, ring.get(ex, st, x) * ring.get(ex, st, y))

    def c_prod(self, ex, st, a):
        out, x, y, n, p = a
        i, _ = self.in1.index(ex, st, x.off)
        i2, _ = self.in2.index(ex, st, y.off)
        n = ex.as_s(st, n, 32)
        self.range(st, 'both arrays start at the same entry', to_z3(i) == to_z3(i2))
        self.range(st, 'at least one pair', to_z3(n) >= 1)
        self.range(st, 'within the arrays', z3.And(to_z3(i) >= 0, to_z3(i) + to_z3(n) <= to_z3(self.n)))
        ok = any(ex.check(st, [z3.Not(z3.And(to_z3(lo) <= to_z3(i), to_z3(i) + to_z3(n) <= to_z3(hi)))]) == z3.unsat for lo, hi in st.data.get('nonid', ()))
        self.flag('no identity among the pairs handed on', ok)
        ring.put(ex, st, out, self.S(st, i + n) - self.S(st, i))

    def c_finalpow(self, ex, st, a):
        d = ring.getcell(st, a[0], ring.LAY.e_data)
        v = ring.get(ex, st, d)
        z = self.K.zt(st, v)
        self.range(st, 'value powered is not 0', z3.BoolVal(not z) if isinstance(z, bool) else z3.Not(z))
        ring.put(ex, st, d, v * Poly.var('cof'))

    def c_initp(self, ex, st, a):
        pr, data = a
        o = self.po
        st.data['initp'] = True
        gmp.minit(ex, st, Ptr(pr.obj, o['r']))
        gmp.mset(ex, st, Ptr(pr.obj, o['r']), Poly.var('r'))
        for nm, D in (('G1', self.G1), ('G2', self.G2)):
            ring.setcell(st, pr, o[nm], D.ptr)
        ring.setcell(st, pr, o['map'], FnPtr('#map'))
        ring.setcell(st, pr, o['finalpow'], FnPtr('#finalpow'))
        if self.ownprod:
            ring.setcell(st, pr, o['prod_pairings'], FnPtr('#prod'))

    def flag(self, name, ok, det='', bad='failed'):
        if self.leak:
            return
        if self.canary:
            ok = not ok
        self.canary_depth += 1
        self.ob(name, 'proved' if ok else bad, det)
        self.canary_depth -= 1

    # ---- setup
    def setup(self, ownprod=False):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.ownprod = ownprod
        self.mod = modules()['ecc/pairing.c']
        self.po = self.mod.struct_offsets('pairing_s')
        self.G1, self.G2, self.K = LogGroup('G1'), LogGroup('G2'), KField('K')
        for D in (self.G1, self.G2, self.K):
            ring.mk_field(ex, st, D)
            st.wobj(D.ptr.obj).desc = D
        pr = self.pr = st.alloc(self.po['data'] + 8, 'heap', 'pairing')
        par = st.alloc(16, 'heap', 'par')
        api = st.alloc(64, 'heap', 'api')
        o = self.mod.struct_offsets('pbc_param_s')
        oi = self.mod.struct_offsets('pbc_param_interface_s')
        ring.setcell(st, par, o['api'], api)
        data = st.alloc(8, 'heap', 'pardata')
        ring.setcell(st, par, o['data'], data)
        ring.setcell(st, api, oi['init_pairing'], FnPtr('#initp'))
        st, _ = self.one(self.fn(st, 'pairing_init_pbc_param', pr, par))
        st, _ = self.one(self.fn(st, 'pairing_GT_init', pr, self.K.ptr))
        self.GT = Ptr(pr.obj, pr.off + self.po['GT'])
        # what pairing_init_pbc_param does after init_pairing has made the groups
        off = ring.LAY.off['pairing']
        for f in (self.G1.ptr, self.G2.ptr, self.GT):
            ring.setcell(st, f, off, pr)
        return st

    def gt_elem(self, st, v=None, nm='gt'):
        e = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.ex.run_fn(st, FnPtr('v_init'), [e, self.GT]))
        self.set_gt(st, e, Poly.fresh('old') if v is None else v)
        return st, e

    def gt(self, st, e):
        return ring.get(self.ex, st, ring.getcell(st, e, ring.LAY.e_data))

    def set_gt(self, st, e, v):
        ring.put(self.ex, st, ring.getcell(st, e, ring.LAY.e_data), v)

    # ---- cases
    def apply(self, api):
        st = self.setup()
        x, y = Poly.var('x'), Poly.var('y')
        a, b = ring.new_elem(self.ex, st, self.G1, x), ring.new_elem(self.ex, st, self.G2, y)
        st, out = self.gt_elem(st)
        args = [out, a, b] + ([self.pr] if api == 'pairing_apply' else [])
        h = heap(st, args)
        for s, _ in self.ex.run_fn(st, FnPtr('v_' + api), args):
            if not self.path_ok(s):
                continue
            self.eq(s, 'value', self.gt(s, out), x * y)
            self.eq(s, 'first argument unchanged', ring.get(self.ex, s, a), x)
            self.eq(s, 'second argument unchanged', ring.get(self.ex, s, b), y)
            self.no_leak(s, h, None, api)

    def pp(self):
        """preprocess once, change the point, apply twice"""
        st = self.setup()
        ex = self.ex
        x, y, z = (Poly.var(c) for c in 'xyz')
        a, b, c = ring.new_elem(ex, st, self.G1, x), ring.new_elem(ex, st, self.G2, y), ring.new_elem(ex, st, self.G2, z)
        st, o1 = self.gt_elem(st)
        st, o2 = self.gt_elem(st)
        h = heap(st, [a, b, c, o1, o2])
        for s, _ in ex.run_fn(st, FnPtr('v_pairing_pp2'), [o1, a, b, o2, c, self.pr]):
            if not self.path_ok(s):
                continue
            self.eq(s, 'first value', self.gt(s, o1), x * y)
            self.eq(s, 'second value', self.gt(s, o2), x * z)
            self.eq(s, 'point unchanged', ring.get(ex, s, a), x)
            self.no_leak(s, h, None, 'preprocessed pairing')

    def ppkept(self):
        """default preprocessing does not depend on the point afterwards"""
        st = self.setup()
        ex = self.ex
        x, y = Poly.var('x'), Poly.var('y')
        ex.assume(st, z3.Not(self.zc(st, x)))
        ex.assume(st, z3.Not(self.zc(st, y)))
        st.nonzeros += [x, y]
        a, b = ring.new_elem(ex, st, self.G1, x), ring.new_elem(ex, st, self.G2, y)
        o = self.mod.struct_offsets('pairing_pp_s')
        p = st.alloc(16, 'heap', 'pp')
        ring.setcell(st, p, o['pairing'], self.pr)
        out = ring.new_elem(ex, st, self.K, Poly.fresh('old'))
        h = heap(st, [a, b, p, out])
        st, _ = self.one(self.fn(st, 'default_pp_init', p, a, self.pr, mod='ecc/pairing.c'))
        ring.put(ex, st, a, Poly.var('w'))
        for s, _ in self.fn(st, 'default_pp_apply', out, b, p, mod='ecc/pairing.c'):
            self.eq(s, 'value of the point given', ring.get(ex, s, out), x * y)
            for s2, _ in self.fn(s, 'default_pp_clear', p, mod='ecc/pairing.c'):
                s2.wobj(p.obj).cells.pop(p.off + o['data'], None)
                self.no_leak(s2, h, None, 'clearing')

    def zc(self, st, v):
        c = ring.zero_cond(self.ex, st, v)
        return z3.BoolVal(c) if isinstance(c, bool) else c

    def arrays(self, st):
        n = self.n = Poly.var('n')
        self.ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 28))
        out = []
        for D, nm in ((self.G1, 'x'), (self.G2, 'y')):
            p = st.alloc(None, 'heap', 'inputs ' + nm)
            g = ElemArray(D, n, nm)
            st.wobj(p.obj).ghost = g
            out.append(p)
            setattr(self, 'in1' if nm == 'x' else 'in2', g)
        return out

    def prod(self):
        st = self.setup(True)
        a, b = self.arrays(st)
        st, out = self.gt_elem(st)
        fn = 'v_prod_pairing'
        f = 'element_prod_pairing'
        Runs(self, f, 0)
        Scan(self, f, 1)
        h = heap(st, [out, a, b])
        for s, _ in self.ex.run_fn(st, FnPtr(fn), [out, a, b, SI(32, self.n, 0, 1 << 28)]):
            if not self.path_ok(s):
                continue
            self.same(s, 'product over all pairs', self.gt(s, out), self.S(s, self.n))
            self.no_leak(s, h, None, 'element_prod_pairing')

    def gprod(self):
        st = self.setup()
        a, b = self.arrays(st)
        self.ex.assume(st, to_z3(self.n) >= 1)
        st.data['nonid'] = ((P(0), self.n),)
        out = ring.new_elem(self.ex, st, self.K, Poly.fresh('old'))
        Prod(self, 'generic_prod_pairings', 0)
        h = heap(st, [out, a, b])
        for s, _ in self.fn(st, 'generic_prod_pairings', out, a, b, SI(32, self.n, 1, 1 << 28), self.pr, mod='ecc/pairing.c'):
            if not self.path_ok(s):
                continue
            self.same(s, 'product over all pairs', ring.get(self.ex, s, out), self.S(s, self.n))
            self.no_leak(s, h, None, 'generic_prod_pairings')

    def coddh(self):
        st = self.setup()
        ex = self.ex
        v = [Poly.var(k) for k in ('la', 'lb', 'lc', 'ld')]
        es = [ring.new_elem(ex, st, D, x) for D, x in zip((self.G1, self.G1, self.G2, self.G2), v)]
        h = heap(st, es)
        for s, r in ex.run_fn(st, FnPtr('v_is_almost_coddh'), es + [self.pr]):
            if not self.path_ok(s):
                continue
            a, b, c, d = v
            want = z3.Or(self.zc(s, a * d - b * c), self.zc(s, a * d + b * c))
            self.truth2(s, 'yes exactly when the ratios agree up to sign', r, want, a * d - b * c, a * d + b * c)
            self.no_leak(s, h, None, 'is_almost_coddh')

    def truth2(self, s, name, r, want, m, p):
        if self.leak:
            return
        c = self.ex.cond_of(s, r)
        if not isinstance(c, bool):
            raise Unsupported("symbolic answer")
        if self.canary:
            c = not c
        self.canary_depth += 1
        if c:
            ok = ring.prove_zero(s, m) or ring.prove_zero(s, p) or ring.prove_zero(s, m * p)
        else:
            # yes would contradict the path
            ok = self.nz(s, m) and self.nz(s, p)
        self.ob(name, 'proved' if ok else 'failed', '' if ok else 'answer %s' % c)
        self.canary_depth -= 1

    def nz(self, s, v):
        t = s.fork()
        if ring.prove_zero(t, v):
            return False
        ring.add_zero(t, v)
        return any(ring.prove_zero(t, n) for n in t.nonzeros) or self.ex.check(s, [self.zc(s, v)]) == z3.unsat

    def op(self, op, alias):
        st = self.setup()
        ex = self.ex
        n = max(alias) + 1
        vals = [Poly.var('abc'[i]) for i in range(n)]
        es = []
        for v in vals:
            st, e = self.gt_elem(st, v)
            es.append(e)
        args = [es[i] for i in alias]
        ins = [vals[i] for i in alias[1:]]
        k = Poly.var('k')
        extra = []
        if op in ('pow_mpz', 'mul_mpz'):
            z = st.alloc(16, 'heap', 'k')
            gmp.minit(ex, st, z)
            gmp.mset(ex, st, z, k)
            ex.assume(st, to_z3(k) >= 0)
            extra = [z]
        f = {'mul': lambda a, b: a + b, 'add': lambda a, b: a + b, 'div': lambda a, b: a - b, 'sub': lambda a, b: a - b, 'invert': lambda a: -a, 'neg': lambda a: -a,
             'set': lambda a: a, 'square': lambda a: a * 2, 'double': lambda a: a * 2, 'set0': lambda: P(0), 'set1': lambda: P(0), 'pow_mpz': lambda a: a * k, 'mul_mpz': lambda a: a * k}[op]
        h = heap(st, args + extra)
        for s, _ in ex.run_fn(st, FnPtr('v_' + op), args + extra):
            if not self.path_ok(s):
                continue
            self.eq(s, 'value', self.gt(s, args[0]), f(*ins))
            for i in range(n):
                if i != alias[0]:
                    self.eq(s, 'operand unchanged', self.gt(s, es[i]), vals[i])
            self.no_leak(s, h, None, op)

    def test(self, op):
        st = self.setup()
        a, b = Poly.var('a'), Poly.var('b')
        st, x = self.gt_elem(st, a)
        args, d = [x], a
        if op == 'cmp':
            st, y = self.gt_elem(st, b)
            args, d = [x, y], a - b
        for s, r in self.ex.run_fn(st, FnPtr('v_' + op), args):
            z = self.zc(s, d)
            self.truth(s, 'answer', r, z3.Not(z) if op == 'cmp' else z)

    def drawn(self, kind):
        st = self.setup()
        ex = self.ex
        st, e = self.gt_elem(st)
        if kind == 'random':
            unit = self

            class Draw(LoopInv):
                def havoc(self, L): unit.set_gt(L.st, L.arg('e'), Poly.fresh('junk'))
                def check(self, L, tag): pass
            Draw(self, 'gt_random', 0)
            args = [e]
        else:
            d = st.alloc(32, 'heap', 'hash')
            args = [e, d, 32]
        h = heap(st, args[:2])
        for s, _ in ex.run_fn(st, FnPtr('v_' + kind), args):
            if not self.path_ok(s):
                continue
            if kind == 'random':
                want = s.data['drawn']
            else:
                dd, ln, want = s.data['hashed']
                self.flag('all of the data is hashed', dd == args[1] and ln == 32)
                z = self.K.zt(s, want)
                if ex.check(s, [z3.Not(z)]) == z3.unsat:
                    want = P(0)
            self.eq(s, 'the powered value', self.gt(s, e), want * Poly.var('cof'))
            self.no_leak(s, h, None, kind)

    def body(self):
        self.case('pairing_apply', self.apply, 'pairing_apply')
        self.case('element_pairing', self.apply, 'element_pairing')
        self.case('preprocessing', self.pp)
        self.case('preprocessing keeps its own copy', self.ppkept)
        self.case('product of pairings', self.prod)
        self.case('generic product', self.gprod)
        self.case('generic almost-co-DDH', self.coddh)
        for o in ('mul', 'div', 'add', 'sub'):
            for al in ((0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0)):
                self.case('GT %s %s' % (o, al), self.op, o, al)
        for o in ('invert', 'neg', 'set', 'square', 'double', 'pow_mpz', 'mul_mpz'):
            for al in ((0, 1), (0, 0)):
                self.case('GT %s %s' % (o, al), self.op, o, al)
        for o in ('set0', 'set1'):
            self.case('GT ' + o, self.op, o, (0,))
        for o in () if self.leak else ('is0', 'is1', 'cmp'):
            self.case('GT ' + o, self.test, o)
        self.case('GT random', self.drawn, 'random')
        self.case('GT hash', self.drawn, 'from_hash')
