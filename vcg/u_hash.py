"""Hashing and random values (C14)"""
from .unit import *
from . import u_enc, u_fp, u_quad, u_ext
from .u_enc import Bytes, EncMixin
from .loops import LoopInv, View
from .ir import IntT


class Fill(LoopInv):
    """0 <= i < count; once something was written the buffer starts with the whole hash"""

    def want(self, L):
        u = self.unit
        return u.data_ptr.obj, u.hlen

    def havoc(self, L):
        i, m = Poly.fresh('i'), Poly.fresh('m')
        u = self.unit
        L.set_int('i', i, 0, 1 << 40, 64)
        b = L.arg('buf')
        g = u_enc.buf(L.st, b)
        L.assume(z3.And(to_z3(i) < to_z3(g.size), z3.If(to_z3(i) == 0, to_z3(m) == 0, z3.And(to_z3(m) == to_z3(u.hlen), to_z3(i) >= to_z3(u.hlen) + 1))))
        L.st.wobj(b.obj).ghost = Bytes(g.size, [(P(0), m, ('copy', u.data_ptr.obj, P(0)))])
        L.set_int('counter', Poly.fresh('ctr'), 0, 255, 8)
        self.i = i

    def check(self, L, tag):
        u = self.unit
        i = L.int('i', 64, False)
        g = u_enc.buf(L.st, L.arg('buf'))
        u.goal(L.st, 'position inside the buffer (%s)' % tag, z3.And(to_z3(i) >= 0, to_z3(i) < to_z3(g.size)))
        u.goal(L.st, 'loop goes on only while incomplete (%s)' % tag, to_z3(L.int('done', 32)) == 0)
        u.goal(L.st, 'buffer starts with the hash (%s)' % tag,
               z3.Implies(to_z3(i) > 0, z3.And(to_z3(i) >= to_z3(u.hlen) + 1, u.starts(g, u.hlen))))

    def variant(self, L):
        return u_enc.buf(L.st, L.arg('buf')).size - L.int('i', 64, False)


class Shrink(LoopInv):
    """the integer stays nonnegative and is a leading part of the number read"""

    def havoc(self, L):
        z = Poly.fresh('z')
        gmp.mset(L.ex, L.st, L.arg('z'), z)
        L.assume(to_z3(z) >= 0)

    def check(self, L, tag):
        self.unit.goal(L.st, 'integer nonnegative (%s)' % tag, to_z3(gmp.mget(L.ex, L.st, L.arg('z'))) >= 0)

    def variant(self, L):
        return gmp.mget(L.ex, L.st, L.arg('z'))


class HashUnit(Unit):
    """pbc_mpz_from_hash and the random sources"""
    name = 'hashing to an integer below a limit; random integers'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['pbc_malloc_contract'] = self.c_malloc
        C['__gmpz_import'] = self.c_import
        self.orig_import = gmp.C['__gmpz_import']
        C['fopen'] = self.c_fopen
        C['fclose'] = self.c_fclose
        C['fread'] = self.c_fread
        C['__gmpz_urandomm'] = self.c_urandomm
        C['__gmp_randinit_default'] = lambda ex, st, a: None
        C['__gmp_randseed_ui'] = lambda ex, st, a: None
        C['pbc_warn'] = lambda ex, st, a: None
        C.pop('pbc_mpz_random', None)
        self.assumptions.add("mpz_urandomm returns a value in [0, limit)")

    def c_malloc(self, ex, st, a):
        if isinstance(a[0], int):
            return gmp.C['pbc_malloc_contract'](ex, st, a)
        p = st.alloc(None, 'heap', 'malloc')
        st.wobj(p.obj).ghost = Bytes(ex.as_u(st, a[0], 64))
        return p

    def c_import(self, ex, st, a):
        st.data['imported'] = (a[6], a[1], st.objs[a[6].obj].ghost)
        return self.orig_import(ex, st, a)

    def c_urandomm(self, ex, st, a):
        lim = gmp.mget(ex, st, a[2])
        if ex.check(st, [to_z3(lim) <= 0]) != z3.unsat:
            raise Unsupported("limit")
        v = Poly.fresh('rnd')
        ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(lim)))
        gmp.mset(ex, st, a[0], v)

    def c_fopen(self, ex, st, a):
        t = st.fork()
        f = st.alloc(8, 'heap', 'FILE')
        return [(st, f), (t, 0)]

    def c_fclose(self, ex, st, a):
        if not isinstance(a[0], Ptr) or st.objs[a[0].obj].freed:
            raise MemError("fclose of a closed stream")
        st.wobj(a[0].obj).freed = True
        return 0

    def c_fread(self, ex, st, a):
        b, sz, n, f = a
        if not isinstance(f, Ptr) or st.objs[f.obj].freed:
            raise MemError("fread from a closed stream")
        n = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        if sz != 1:
            raise Unsupported("fread size")
        g = u_enc.buf(st, b)
        g.need(ex, st, P(b.off), n, 'fread')
        st.wobj(b.obj).ghost = Bytes(g.size)
        r = Poly.fresh('got')
        ex.assume(st, z3.And(to_z3(r) >= 0, to_z3(r) <= to_z3(n)))
        return SI(64, r, 0, 1 << 40)

    def goal(self, st, name, g):
        if self.canary:
            g = z3.Not(g)
        r = self.ex.check(st, [z3.Not(g)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(g)[:200])
        self.canary_depth -= 1

    def starts(self, g, n):
        """the first n bytes are those of the hash"""
        c = [z3.And(to_z3(o) == 0, to_z3(l) >= to_z3(n)) for o, l, k in g.segs if k[0] == 'copy' and k[1] == self.data_ptr.obj and k[2] == P(0)]
        return z3.Or(*c) if c else z3.BoolVal(False)

    def from_hash(self):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        Fill(self, 'pbc_mpz_from_hash', 0)
        Shrink(self, 'pbc_mpz_from_hash', 1)
        lim = Poly.var('limit')
        ex.assume(st, to_z3(lim) >= 1)
        z, l = st.alloc(16, 'heap', 'z'), st.alloc(16, 'heap', 'limit')
        gmp.minit(ex, st, z, Poly.var('old'))
        gmp.minit(ex, st, l, lim)
        self.hlen = n = Poly.var('len')
        ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 31))
        self.data_ptr = d = st.alloc(None, 'heap', 'data')
        st.wobj(d.obj).ghost = Bytes(n)
        h = heap(st, [z, l, d])
        for s, _ in self.fn(st, 'pbc_mpz_from_hash', z, l, d, SI(32, n, 0, (1 << 31) - 1)):
            if not self.path_ok(s):
                continue
            v = gmp.mget(ex, s, z)
            self.goal(s, 'result below the limit', z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(lim)))
            self.goal(s, 'limit unchanged', to_z3(gmp.mget(ex, s, l)) == to_z3(lim))
            im = s.data.get('imported')
            if im is None:
                self.ob('the number comes from the buffer', 'failed')
                continue
            p, cnt, g = im
            cnt = P(cnt) if isinstance(cnt, int) else ex.as_u(s, cnt, 64)
            self.goal(s, 'the whole buffer is read', z3.And(to_z3(P(p.off)) == 0, to_z3(cnt) == to_z3(g.size)))
            self.goal(s, 'the buffer is as long as the limit', to_z3(cnt) == to_z3(ex.divmod(s, s.data['sib'][(lim.key(), 2)] + 7, P(8))[0]))
            self.goal(s, 'the leading bytes are those of the hash', z3.Or(z3.And(to_z3(n) <= to_z3(cnt), self.starts(g, n)), z3.And(to_z3(n) > to_z3(cnt), self.starts(g, cnt))))
            self.no_leak(s, h, None, 'pbc_mpz_from_hash')

    def random(self, src):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        u_enc.Retry(self, 'file_mpz_random', 0)
        lim = Poly.var('limit')
        ex.assume(st, to_z3(lim) >= 1)
        z, l = st.alloc(16, 'heap', 'z'), st.alloc(16, 'heap', 'limit')
        gmp.minit(ex, st, z, Poly.var('old'))
        gmp.minit(ex, st, l, lim)
        if src == 'seed':
            st, _ = self.one(self.fn(st, 'pbc_random_set_deterministic', 5))
        else:
            f = st.alloc(8, 'heap', 'filename')
            st, _ = self.one(self.fn(st, 'pbc_random_set_file', f))
        h = heap(st, [z, l])
        for s, _ in self.fn(st, 'pbc_mpz_random', z, l):
            if not self.path_ok(s):
                continue
            v = gmp.mget(ex, s, z)
            ok = z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(lim))
            if src == 'file':
                ok = z3.Or(ok, to_z3(v) == to_z3(Poly.var('old')))      # unreadable source: nothing is written
            self.goal(s, 'in range', ok)
            self.goal(s, 'limit unchanged', to_z3(gmp.mget(ex, s, l)) == to_z3(lim))
            self.no_leak(s, h, None, 'pbc_mpz_random')

    def body(self):
        self.case('pbc_mpz_from_hash', self.from_hash)
        self.case('pbc_mpz_random, seeded', self.random, 'seed')
        self.case('pbc_mpz_random, file', self.random, 'file')


# ---------------------------------------------------------------- fields

def c_from_hash(ex, st, a):
    """an integer in [0, limit) depending on the bytes and the limit only"""
    z, lim, data, n = a
    lv = gmp.mget(ex, st, lim)
    n = P(n) if isinstance(n, int) else ex.as_u(st, n, 32)
    u_enc.buf(st, data).need(ex, st, P(data.off), n, 'read of the hash')
    t = st.data.get('hashes', ())
    for o, off, m, l, v in t:
        if o == data.obj and off == P(data.off) and m == n and l == lv:
            break
    else:
        v = Poly.fresh('hash')
        ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(lv)))
        st.data['hashes'] = tuple(t) + ((data.obj, P(data.off), n, lv, v),)
    gmp.mset(ex, st, z, v)


def c_random(ex, st, a):
    lv = gmp.mget(ex, st, a[1])
    v = Poly.fresh('rnd')
    ex.assume(st, z3.And(to_z3(v) >= 0, to_z3(v) < to_z3(lv)))
    st.data['rnds'] = tuple(st.data.get('rnds', ())) + (v,)
    gmp.mset(ex, st, a[0], v)


class FpHash(u_enc.FpEnc):
    def contracts(self):
        self.ex.contracts['pbc_mpz_from_hash'] = c_from_hash
        self.ex.contracts['pbc_mpz_random'] = c_random
        self.assumptions.add("pbc_mpz_random returns a value in [0, limit) (its own unit covers the two sources of the library)")

    def hsh(self, op, prev):
        self.contracts()
        outs0, K, p = self.setup()
        ex = self.ex
        n = Poly.var('len')
        for st0, _ in outs0:
            for st, b, vb in self.elem(st0.fork(), K, 'b', stale=prev == '0'):
                args = []
                if op == 'from_hash':
                    ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 31))
                    d = self.buffer(st, n)
                    args = [d, SI(32, n, 0, (1 << 31) - 1)]
                st.data['rnds'] = ()
                for s, _ in self.api(st, op, b, *args):
                    vals = [h[4] for h in s.data.get('hashes', ()) if h[0] == d.obj and h[1] == P(0) and h[2] == n] if op == 'from_hash' else s.data['rnds']
                    if not vals:
                        self.ob('the value comes from the ' + ('hash' if op == 'from_hash' else 'random source'), 'failed')
                        continue
                    for s2, w in self.value(s, b):
                        if w.is_zero() and self.absurd(s2, vals[-1], p):
                            continue
                        self.stored(s2, 'value', w, vals[-1] * self.R)

    def body(self):
        for op in ('from_hash', 'random'):
            for k in 'b0':
                self.case('%s into %s' % (op, k), self.hsh, op, k)


class FpHashUnit(FpHash, u_fp.FpUnit):
    def __init__(self, **k):
        u_fp.FpUnit.__init__(self, **k)
        self.name = 'hash and random elements of ' + self.name


class FpRepHashUnit(FpHash, u_fp.FpRepUnit):
    def __init__(self, **k):
        u_fp.FpRepUnit.__init__(self, **k)
        self.name = 'hash and random elements of ' + self.name


class HashBase(u_enc.EncBase):
    def s_from_hash(self, ex, st, e, data, n):
        n = P(n) if isinstance(n, int) else ex.as_u(st, n, 32)
        u_enc.buf(st, data).need(ex, st, P(data.off), n, 'read of the hash')
        t = st.data.get('hashes', ())
        for o, off, m, v in t:
            if o == data.obj and off == P(data.off) and m == n:
                break
        else:
            v = Poly.fresh('hash')
            st.data['hashes'] = tuple(t) + ((data.obj, P(data.off), n, v),)
        ring.put(ex, st, e, v)

    def s_random(self, ex, st, e):
        v = Poly.fresh('rnd')
        st.data['rnds'] = tuple(st.data.get('rnds', ())) + (v,)
        ring.put(ex, st, e, v)


class RingHash(EncMixin):
    """each coordinate is hashed from its own part of the bytes and the parts make up the whole;
    each random coordinate is drawn separately"""

    def new_base(self, name='F'):
        return HashBase(name)

    def goal(self, st, name, g):
        HashUnit.goal(self, st, name, g)

    def hsh(self):
        st, K, S = self.setup()
        ex = self.ex
        st, a, v = self.view_new(st, K, 'a')
        st, b, _ = self.view_new(st, K, 'b')
        n = Poly.var('len')
        ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < 1 << 31))
        d = self.buffer(st, n)
        for s, _ in self.api(st, 'from_hash', a, d, SI(32, n, 0, (1 << 31) - 1)):
            got = self.read(s, a)
            hs = list(s.data.get('hashes', ()))
            vs = [h[3] for h in hs]
            ok = all(x in vs for x in got) and len(set(map(repr, got))) == len(got)
            self.flag('each coordinate from its own part of the hash', ok, repr(got)[:200])
            if ok:
                # the parts tile [0, len)
                parts = [hs[vs.index(x)] for x in got]
                tot = P(0)
                for h in parts:
                    tot = tot + h[2]
                self.goal(s, 'the parts add up to the whole hash', to_z3(tot) == to_z3(n))
                for i, h in enumerate(parts):
                    for g in parts[i + 1:]:
                        self.goal(s, 'parts disjoint', z3.Or(to_z3(h[1] + h[2]) <= to_z3(g[1]), to_z3(g[1] + g[2]) <= to_z3(h[1])))
                        self.goal(s, 'parts of even length', z3.And(to_z3(h[2] - g[2]) <= 1, to_z3(g[2] - h[2]) <= 1))
            for s2, _ in self.api(s, 'from_hash', b, d, SI(32, n, 0, (1 << 31) - 1)):
                self.eq(s2, 'same bytes, same element', self.read(s2, b), got)

    def flag(self, name, ok, det=''):
        self.canary_depth += 1
        self.ob(name, 'proved' if ok and not self.canary else 'failed', '' if ok else det)
        self.canary_depth -= 1

    def rnd(self):
        st, K, S = self.setup()
        st, a, v = self.view_new(st, K, 'a')
        for s, _ in self.api(st, 'random', a):
            got = self.read(s, a)
            r = s.data.get('rnds', ())
            self.flag('each coordinate drawn separately', all(x in r for x in got) and len(set(map(repr, got))) == len(got), repr(got)[:200])

    def body(self):
        self.case('from_hash', self.hsh)
        self.case('random', self.rnd)


class QuadHash(RingHash, u_quad.QuadUnit):
    def __init__(self, kind='fq', **k):
        super().__init__(kind=kind, **k)
        self.name = 'hash and random elements of the quadratic extension ' + kind


class PolymodHash(RingHash, u_ext.PolymodUnit):
    def __init__(self, n=3, **k):
        super().__init__(n=n, **k)
        self.name = 'hash and random elements of the degree-%d polynomial extension' % n

    def body(self):
        RingHash.body(self)
