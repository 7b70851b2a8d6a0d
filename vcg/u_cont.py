"""Dynamic arrays and symbol tables of any size.

The item array is a mathematical array of unknown length; the stored pointers are
opaque integers.  Loops are cut at invariants that quantify over the positions seen."""
from .unit import *
from .loops import LoopInv
from .ir import PtrT, IntT
from .u_z import IntMixin

_n = [0]


def fresh_arr(nm='arr'):
    _n[0] += 1
    return z3.Array('%s!%d' % (nm, _n[0]), z3.IntSort(), z3.IntSort())


def words(off, size=8):
    """byte offset -> word index"""
    if isinstance(off, int):
        if off % size:
            raise Unsupported("misaligned word")
        return P(off // size)
    q = Poly({m: c // size for m, c in off.t.items() if c % size == 0})
    if not (q * size == off):
        raise Unsupported("misaligned word")
    return q


class Words:
    """array of `cap` pointer-sized words"""

    def __init__(self, arr, cap, region=None):
        self.arr, self.cap, self.region = arr, P(cap), region

    def havocked(self):
        return Words(fresh_arr(), self.cap, self.region)

    def need(self, ex, st, c, what):
        r = ex.check(st, [z3.Not(c)])
        if r == z3.sat:
            raise MemError("%s outside the item array" % what)
        if r != z3.unsat:
            raise Unsupported("%s not shown inside the item array" % what)

    def w_load(self, ex, st, o, off, ty, n):
        if n != 8:
            raise Unsupported("part of a word")
        i = to_z3(words(off))
        self.need(ex, st, z3.And(i >= 0, i < to_z3(self.cap)), 'read')
        v = Poly.fresh('w')
        z = to_z3(v)
        ex.assume(st, z3.And(z == z3.Select(self.arr, i), z >= 0, z < 1 << 60))
        if self.region is not None:
            return Ptr(self.region, v * st.objs[self.region].ghost.size)
        return SI(64, v, 0, 1 << 60)

    def code(self, ex, st, v):
        if isinstance(v, Ptr) and v.obj == self.region:
            return to_z3(words(v.off, st.objs[self.region].ghost.size))
        if isinstance(v, Ptr):
            raise Unsupported("pointer stored in an abstract array")
        return to_z3(ex.as_u(st, v, 64))

    def w_store(self, ex, st, o, off, ty, n, v):
        if n != 8:
            raise Unsupported("part of a word")
        i = to_z3(words(off))
        self.need(ex, st, z3.And(i >= 0, i < to_z3(self.cap)), 'write')
        o.ghost = Words(z3.Store(self.arr, i, self.code(ex, st, v)), self.cap, self.region)

    def w_copy(self, ex, st, d, s, n):
        k = to_z3(words(n if isinstance(n, int) else ex.as_u(st, n, 64)))
        gd, gs = st.objs[d.obj].ghost, st.objs[s.obj].ghost
        if st.objs[d.obj].freed or st.objs[s.obj].freed:
            raise MemError("copy of a freed array")
        if not isinstance(gd, Words) or not isinstance(gs, Words):
            raise Unsupported("copy between different kinds of memory")
        di, si = to_z3(words(d.off)), to_z3(words(s.off))
        self.need(ex, st, z3.Implies(k > 0, z3.And(di >= 0, di + k <= to_z3(gd.cap), si >= 0, si + k <= to_z3(gs.cap))), 'copy')
        self.need(ex, st, k >= 0, 'copy of negative length')
        j = z3.Int('j!lam')
        st.wobj(d.obj).ghost = Words(z3.Lambda([j], z3.If(z3.And(j >= di, j < di + k), z3.Select(gs.arr, si + j - di), z3.Select(gd.arr, j))), gd.cap, gd.region)
        return d

    def w_realloc(self, ex, st, p, n):
        if st.objs[p.obj].freed:
            raise MemError("realloc of a freed array")
        cap = words(n if isinstance(n, int) else ex.as_u(st, n, 64))
        q = st.alloc(None, 'heap', 'items')
        # what lay beyond the smaller of the two sizes is lost
        old, m = fresh_arr('lost'), z3.If(to_z3(cap) < to_z3(self.cap), to_z3(cap), to_z3(self.cap))
        j = z3.Int('j!lam')
        st.wobj(q.obj).ghost = Words(z3.Lambda([j], z3.If(j < m, z3.Select(self.arr, j), z3.Select(old, j))), cap, self.region)
        st.wobj(p.obj).freed = True
        return q


class Records:
    """all symbol-table entries: fields indexed by the identity of the entry"""
    size = 16

    def __init__(self, f):
        self.f = f

    def havocked(self):
        return Records({k: fresh_arr('fld') for k in self.f})

    def split(self, off):
        c = P(off)
        k = int(c.t.get((), 0)) % self.size if not isinstance(off, int) else off % self.size
        return to_z3(words(P(off) - k, self.size)), k

    def w_load(self, ex, st, o, off, ty, n):
        i, k = self.split(off)
        if n != 8 or k not in self.f:
            raise Unsupported("field of an entry")
        v = Poly.fresh('fld')
        z = to_z3(v)
        ex.assume(st, z3.And(z == z3.Select(self.f[k], i), z >= 0, z < 1 << 60))
        return SI(64, v, 0, 1 << 60)

    def w_store(self, ex, st, o, off, ty, n, v):
        i, k = self.split(off)
        if n != 8 or k not in self.f or isinstance(v, Ptr):
            raise Unsupported("field of an entry")
        f = dict(self.f)
        f[k] = z3.Store(f[k], i, to_z3(ex.as_u(st, v, 64)))
        o.ghost = Records(f)

    def w_copy(self, ex, st, d, s, n):
        raise Unsupported("copy of an entry")


J = z3.Int('j!')


class SeqInv(LoopInv):
    """i counts the positions looked at; prop(j) held at every one of them"""

    def __init__(self, unit, fn, idx=0, prop=None, more=None, count='count'):
        super().__init__(unit, fn, idx)
        self.prop = prop

    def havoc(self, L):
        i = Poly.fresh('i')
        L.set_int('i', i, 0, (1 << 30))
        self.assume_(L, i)

    def bound(self, L):
        return to_z3(self.unit.cnt)

    def assume_(self, L, i):
        L.assume(to_z3(i) <= self.bound(L))
        if self.prop:
            L.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < to_z3(i)), self.prop(J))))

    def check(self, L, tag):
        i = to_z3(L.int('i'))
        k = z3.Int('k!')
        g = z3.And(i >= 0, i <= self.bound(L))
        if self.prop:
            g = z3.And(g, z3.Implies(z3.And(k >= 0, k < i), self.prop(k)))
        self.unit.holds(L.st, 'loop invariant ' + tag, g)

    def variant(self, L):
        return self.unit.cnt - L.int('i')


class CallInv(SeqInv):
    """the callback has been applied to exactly the items before position i, in order"""

    def havoc(self, L):
        super().havoc(L)
        i = L.int('i')
        L.st.data['calls'] = [i]

    def check(self, L, tag):
        super().check(L, tag)
        self.unit.holds(L.st, 'items visited ' + tag, to_z3(L.st.data['calls'][0]) == to_z3(L.int('i')))


class FilterInv(LoopInv):
    def havoc(self, L):
        u = self.unit
        i, n = Poly.fresh('i'), Poly.fresh('n')
        L.set_int('i', i, 0, 1 << 30)
        L.set_int('n', n, 0, 1 << 30)
        it = u.items(L.st)
        o = L.st.wobj(it.obj)
        o.ghost = o.ghost.havocked()
        L.assume(self.inv(L, to_z3(i), to_z3(n), o.ghost.arr, None))

    def inv(self, L, i, n, arr, k):
        u = self.unit
        c = u.CNT
        A = z3.And(0 <= n, n <= i, i <= to_z3(u.cnt), n == c(i))
        body = lambda j: z3.And(
            z3.Implies(z3.And(j >= 0, j < i), z3.And(c(j) <= n, c(j) >= 0, z3.Implies(z3.Not(u.TEST(z3.Select(u.arr0, j))), z3.And(c(j) < n, z3.Select(arr, c(j)) == z3.Select(u.arr0, j))))),
            z3.Implies(j >= i, z3.Select(arr, j) == z3.Select(u.arr0, j)))
        return z3.And(A, body(k) if k is not None else z3.ForAll([J], body(J)))

    def check(self, L, tag):
        i, n = to_z3(L.int('i')), to_z3(L.int('n'))
        arr = L.st.objs[self.unit.items(L.st).obj].ghost.arr
        self.unit.holds(L.st, 'filter invariant ' + tag, self.inv(L, i, n, arr, z3.Int('k!')))

    def variant(self, L):
        return self.unit.cnt - L.int('i')


class DarrayUnit(IntMixin, Unit):
    name = 'dynamic arrays of any size'

    def __init__(self, **k):
        super().__init__(**k)
        self.ex.z3timeout = 1500
        self.assumptions.add("fewer than 2^29 items")
        self.assumptions.add("callbacks do not modify the array they are applied to")

    def setup(self, nm='a', tight=None):
        self.ex.loopspecs = {}
        st = State()
        st.data['calls'] = [P(0)]
        return self.mk(st, nm)

    def mk(self, st, nm='a'):
        self.arr0 = fresh_arr('old')
        cnt, mx = Poly.var(nm + 'count'), Poly.var(nm + 'max')
        zc, zm = to_z3(cnt), to_z3(mx)
        self.ex.assume(st, z3.And(zc >= 0, zc <= zm, zm < 1 << 29, zm >= 0))
        a = st.alloc(16, 'heap', nm)
        it = st.alloc(None, 'heap', 'items')
        st.wobj(it.obj).ghost = Words(self.arr0, mx)
        w = st.wobj(a.obj)
        w.cells[0] = (8, it)
        w.cells[8] = (4, SI(32, cnt, 0, (1 << 29)))
        w.cells[12] = (4, SI(32, mx, 0, (1 << 29)))
        self.a, self.cnt, self.max = a, cnt, mx
        return st, a

    def items(self, st, a=None):
        return st.objs[(a or self.a).obj].cells[0][1]

    def view(self, st, a=None):
        """-> (count, array) after checking the representation: count <= max = capacity of a live array"""
        a = a or self.a
        o = st.objs[a.obj]
        cnt = self.ex.as_s(st, o.cells[8][1], 32)
        mx = self.ex.as_s(st, o.cells[12][1], 32)
        it = o.cells[0][1]
        io = st.objs[it.obj] if isinstance(it, Ptr) else None
        if io is None or io.freed or not isinstance(io.ghost, Words):
            raise Unsupported("item array")
        self.holds(st, 'count within the allocation', z3.And(to_z3(cnt) >= 0, to_z3(cnt) <= to_z3(io.ghost.cap), to_z3(mx) <= to_z3(io.ghost.cap), to_z3(cnt) <= to_z3(mx)))
        return to_z3(cnt), io.ghost.arr

    def opaque(self, st, nm='p'):
        p = Poly.var(nm)
        self.ex.assume(st, z3.And(to_z3(p) >= 1, to_z3(p) < 1 << 60))
        return SI(64, p, 1, 1 << 60), to_z3(p)

    def run(self):
        return super().run()

    def call(self, st, name, *a):
        h = heap(st, [x for x in a if isinstance(x, Ptr)])
        rs = self.fn(st, name, *a)
        if self.leak:
            for s, r in rs:
                self.no_leak(s, h, r, name)
        return rs

    # cases
    def append(self, full):
        st, a = self.setup()
        zc, zm = to_z3(self.cnt), to_z3(self.max)
        p, zp = self.opaque(st)
        self.ex.assume(st, zc == zm if full else zc < zm)
        for s, _ in self.call(st, 'darray_append', a, p):
            c, arr = self.view(s)
            k = z3.Int('k!')
            self.holds(s, 'one more item', c == zc + 1)
            self.holds(s, 'the sequence followed by the item', z3.And(z3.Implies(z3.And(k >= 0, k < zc), z3.Select(arr, k) == z3.Select(self.arr0, k)), z3.Select(arr, zc) == zp))

    def removed(self, st, arr, c, i):
        zc = to_z3(self.cnt)
        k = z3.Int('k!')
        self.holds(st, 'one item fewer', c == zc - 1)
        self.holds(st, 'the sequence without the item', z3.Implies(z3.And(k >= 0, k < zc - 1), z3.Select(arr, k) == z3.If(k < i, z3.Select(self.arr0, k), z3.Select(self.arr0, k + 1))))

    def remove_index(self):
        st, a = self.setup()
        n = Poly.var('n')
        self.ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) < to_z3(self.cnt)))
        for s, _ in self.call(st, 'darray_remove_index', a, SI(32, n, 0, 1 << 29)):
            c, arr = self.view(s)
            self.removed(s, arr, c, to_z3(n))

    def remove(self):
        st, a = self.setup()
        p, zp = self.opaque(st)
        SeqInv(self, 'darray_remove', prop=lambda j: z3.Select(self.arr0, j) != zp)
        first = z3.Int('first')
        self.ex.assume(st, z3.And(first >= 0, first < to_z3(self.cnt), z3.Select(self.arr0, first) == zp, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < first), z3.Select(self.arr0, J) != zp))))
        for s, _ in self.call(st, 'darray_remove', a, p):
            c, arr = self.view(s)
            self.removed(s, arr, c, first)

    def remove_last(self):
        st, a = self.setup()
        self.ex.assume(st, to_z3(self.cnt) > 0)
        for s, _ in self.call(st, 'darray_remove_last', a):
            c, arr = self.view(s)
            self.removed(s, arr, c, to_z3(self.cnt) - 1)

    def remove_all(self):
        st, a = self.setup()
        for s, _ in self.call(st, 'darray_remove_all', a):
            o = s.objs[a.obj]
            self.holds(s, 'empty', to_z3(self.ex.as_s(s, o.cells[8][1], 32)) == 0)
            it = o.cells[0][1]
            mx = o.cells[12][1]
            ok = isinstance(it, Ptr) and not s.objs[it.obj].freed and isinstance(mx, int) and s.objs[it.obj].size >= 8 * mx
            self.holds(s, 'capacity allocated', bool(ok))

    def index_of(self):
        st, a = self.setup()
        p, zp = self.opaque(st)
        SeqInv(self, 'darray_index_of', prop=lambda j: z3.Select(self.arr0, j) != zp)
        for s, r in self.call(st, 'darray_index_of', a, p):
            v = to_z3(self.ex.as_s(s, r, 32))
            k = z3.Int('k!')
            zc = to_z3(self.cnt)
            self.holds(s, 'first position or -1', z3.If(v == -1, z3.Implies(z3.And(k >= 0, k < zc), z3.Select(self.arr0, k) != zp),
                       z3.And(v >= 0, v < zc, z3.Select(self.arr0, v) == zp, z3.Implies(z3.And(k >= 0, k < v), z3.Select(self.arr0, k) != zp))))
            self.unchanged(s)

    def unchanged(self, s, a=None, arr0=None):
        c, arr = self.view(s, a)
        k = z3.Int('k!')
        self.holds(s, 'array unchanged', z3.And(c == to_z3(self.cnt), z3.Implies(z3.And(k >= 0, k < c), z3.Select(arr, k) == z3.Select(self.arr0, k))))

    def copy(self):
        st, a = self.setup('src')
        src, sa, sc = a, self.arr0, self.cnt
        st, d = self.mk(st, 'dst')
        self.a, self.arr0, self.cnt = src, sa, sc
        for s, _ in self.call(st, 'darray_copy', d, src):
            c, arr = self.view(s, d)
            k = z3.Int('k!')
            self.holds(s, 'copy equals the source', z3.And(c == to_z3(sc), z3.Implies(z3.And(k >= 0, k < c), z3.Select(arr, k) == z3.Select(sa, k))))
            self.unchanged(s, src)
            it, it2 = self.items(s, d), self.items(s, src)
            self.holds(s, 'separate storage', it.obj != it2.obj)

    def callback(self, nargs, test=False):
        """a function pointer whose body is a contract"""
        T = z3.Function('TEST', z3.IntSort(), z3.BoolSort())
        self.TEST = T

        def f(ex, st, args):
            v = to_z3(ex.as_u(st, args[0], 64))
            if test:
                b = Poly.fresh('t')
                zb = to_z3(b)
                ex.assume(st, z3.And((zb != 0) == T(v), zb >= -(1 << 31), zb < 1 << 31))
                return SI(32, b, -(1 << 31), (1 << 31) - 1)
            i = st.data['calls'][0]
            self.holds(st, 'callback receives the next item', z3.And(to_z3(i) < to_z3(self.cnt), v == z3.Select(self.arr0, to_z3(i))))
            for k, e in enumerate(self.scope):
                self.holds(st, 'scope pointer passed through', to_z3(ex.as_u(st, args[1 + k], 64)) == e)
            st.data['calls'] = [i + 1]
        self.ex.contracts['callback'] = f
        return FnPtr('callback')

    def forall(self, k):
        st, a = self.setup()
        f = self.callback(k)
        nm = 'darray_forall' + ('' if k == 1 else str(k))
        ps = [self.opaque(st, 's%d' % i) for i in range(k - 1)]
        self.scope = [z for _, z in ps]
        CallInv(self, nm)
        for s, _ in self.call(st, nm, a, f, *[p for p, _ in ps]):
            self.holds(s, 'every item visited once', to_z3(s.data['calls'][0]) == to_z3(self.cnt))
            self.unchanged(s)

    def at_test(self):
        st, a = self.setup()
        f = self.callback(2, True)
        SeqInv(self, 'darray_at_test', prop=lambda j: z3.Not(self.TEST(z3.Select(self.arr0, j))))
        p, zp = self.opaque(st)
        for s, r in self.call(st, 'darray_at_test', a, f, p):
            k = z3.Int('k!')
            v = to_z3(self.ex.as_u(s, r, 64))
            none = z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < to_z3(self.cnt)), z3.Not(self.TEST(z3.Select(self.arr0, J)))))
            w = z3.Int('w!')
            some = z3.Exists([w], z3.And(w >= 0, w < to_z3(self.cnt), z3.Select(self.arr0, w) == v, self.TEST(v), z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w), z3.Not(self.TEST(z3.Select(self.arr0, J)))))))
            self.holds(s, 'first item that passes, or NULL', z3.Or(z3.And(v == 0, none), some))
            self.unchanged(s)

    def filter(self):
        st, a = self.setup()
        f = self.callback(1, True)
        self.CNT = z3.Function('CNT', z3.IntSort(), z3.IntSort())
        c = self.CNT
        # number of items kept among the first j
        self.ex.assume(st, z3.And(c(0) == 0, z3.ForAll([J], z3.Implies(J >= 0, c(J + 1) == c(J) + z3.If(self.TEST(z3.Select(self.arr0, J)), 0, 1)), patterns=[c(J)])))
        FilterInv(self, 'darray_remove_with_test')
        for s, _ in self.call(st, 'darray_remove_with_test', a, f):
            n, arr = self.view(s)
            k = z3.Int('k!')
            self.holds(s, 'length is the number of items kept', n == c(to_z3(self.cnt)))
            self.holds(s, 'items kept, in order', z3.Implies(z3.And(k >= 0, k < to_z3(self.cnt), z3.Not(self.TEST(z3.Select(self.arr0, k)))), z3.And(c(k) < n, z3.Select(arr, c(k)) == z3.Select(self.arr0, k))))

    def fresh(self):
        self.ex.loopspecs = {}
        for nm in ('darray_init', 'darray_new'):
            st = State()
            if nm == 'darray_init':
                a = st.alloc(16, 'heap', 'a')
                st, _ = self.one(self.fn(st, nm, a))
            else:
                st, a = self.one(self.fn(st, nm))
            o = st.objs[a.obj]
            self.holds(st, 'empty', bool(o.cells[8][1] == 0))
            it = o.cells[0][1]
            self.holds(st, 'capacity allocated', bool(isinstance(it, Ptr) and st.objs[it.obj].size >= 8 * o.cells[12][1]))
            st, _ = self.one(self.fn(st, 'darray_clear' if nm == 'darray_init' else 'darray_free', a))
            left = [o.name for i, o in st.objs.items() if o.kind == 'heap' and not o.freed and not (nm == 'darray_init' and i == a.obj)]
            self.ob('nothing left allocated', 'proved' if not left else 'refuted', str(left))

    def body(self):
        for full in (False, True):
            self.case('append%s' % (' to a full array' if full else ''), self.append, full)
        for nm in ('remove_index', 'remove', 'remove_last', 'remove_all', 'index_of', 'copy', 'at_test', 'filter', 'fresh'):
            self.case(nm, getattr(self, nm))
        for k in (1, 2, 3, 4):
            self.case('forall%d' % k, self.forall, k)


class SymtabUnit(DarrayUnit):
    name = 'symbol tables of any size'

    def __init__(self, **k):
        super().__init__(**k)
        self.assumptions = {"fewer than 2^29 entries", "strcmp decides equality of names and pbc_strdup returns an equal name", "entries of a table have distinct names (shown to be preserved)"}

    def setup(self):
        self.ex.loopspecs = {}
        st = State()
        st.data['calls'] = [P(0)]
        K, D = fresh_arr('key'), fresh_arr('data')
        R = st.alloc(None, 'heap', 'entries')
        st.wobj(R.obj).ghost = Records({0: K, 8: D})
        st, t = self.mk(st, 't')
        st.wobj(self.items(st).obj).ghost = Words(self.arr0, self.max, R.obj)
        self.K, self.D, self.R = K, D, R
        c = to_z3(self.cnt)
        A = self.arr0
        i, j = z3.Ints('i! j2!')
        # distinct entries with distinct names
        self.ex.assume(st, self.distinct(A, K, c, None))
        self.key = Poly.var('key')
        self.zk = to_z3(self.key)
        self.ex.assume(st, z3.And(self.zk >= 1, self.zk < 1 << 60))

        def strcmp(ex, s, a):
            x, y = to_z3(ex.as_u(s, a[0], 64)), to_z3(ex.as_u(s, a[1], 64))
            r = Poly.fresh('cmp')
            z = to_z3(r)
            ex.assume(s, z3.And((z == 0) == (x == y), z >= -(1 << 31), z < 1 << 31))
            return SI(32, r, -(1 << 31), (1 << 31) - 1)

        def strdup(ex, s, a):
            return a[0]

        def alloc(ex, s, a):
            if a[0] != 16:
                raise Unsupported("allocation of another kind")
            e = Poly.fresh('entry')
            z = to_z3(e)
            ex.assume(s, z3.And(z >= 1, z < 1 << 59, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < to_z3(self.cnt)), z3.Select(self.arr0, J) != z))))
            return Ptr(self.R.obj, e * 16)
        self.ex.contracts = dict(self.ex.contracts)
        self.ex.contracts['strcmp'] = strcmp
        self.ex.contracts['pbc_strdup'] = strdup
        self.ex.contracts['pbc_malloc_contract'] = alloc
        return st, t

    def distinct(self, A, K, c, w):
        i, j = z3.Ints('i! j2!')
        f = lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < c), z3.And(z3.Select(A, i) != z3.Select(A, j), z3.Select(K, z3.Select(A, i)) != z3.Select(K, z3.Select(A, j))))
        return z3.ForAll([i, j], f(i, j)) if w is None else f(*w)

    def inv(self, fn):
        SeqInv(self, fn, prop=lambda j: z3.Select(self.K, z3.Select(self.arr0, j)) != self.zk)

    def keyarg(self):
        return SI(64, self.key, 1, 1 << 60)

    def at(self, nm):
        st, t = self.setup()
        self.inv(nm)
        where = z3.Int('where')
        c, A, K, D = to_z3(self.cnt), self.arr0, self.K, self.D
        found = z3.And(where >= 0, where < c, z3.Select(K, z3.Select(A, where)) == self.zk)
        absent = z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < c), z3.Select(K, z3.Select(A, J)) != self.zk))
        for present in (False, True):
            s0 = st.fork()
            self.ex.assume(s0, found if present else absent)
            for s, r in self.call(s0, nm, t, self.keyarg()):
                v = to_z3(self.ex.as_u(s, r, 64)) if nm == 'symtab_at' else to_z3(self.ex.as_s(s, r, 32))
                if nm == 'symtab_at':
                    self.holds(s, 'stored value' if present else 'absent is NULL', v == (z3.Select(D, z3.Select(A, where)) if present else 0))
                else:
                    self.holds(s, 'reported present' if present else 'reported absent', (v != 0) == present)

    def put(self, present, full):
        st, t = self.setup()
        self.inv('symtab_put')
        where = z3.Int('where')
        c, A, K, D = to_z3(self.cnt), self.arr0, self.K, self.D
        if present:
            self.ex.assume(st, z3.And(where >= 0, where < c, z3.Select(K, z3.Select(A, where)) == self.zk))
        else:
            self.ex.assume(st, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < c), z3.Select(K, z3.Select(A, J)) != self.zk)))
        self.ex.assume(st, c == to_z3(self.max) if full else c < to_z3(self.max))
        d, zd = self.opaque(st, 'd')
        for s, _ in self.fn(st, 'symtab_put', t, d, self.keyarg()):
            n, A2 = self.view(s)
            g = s.objs[self.R.obj].ghost
            K2, D2 = g.f[0], g.f[8]
            k = z3.Int('k!')
            if present:
                self.holds(s, 'no new entry', n == c)
                self.holds(s, 'value replaced', z3.Select(D2, z3.Select(A2, where)) == zd)
                self.holds(s, 'other entries unchanged', z3.Implies(z3.And(k >= 0, k < c), z3.And(z3.Select(A2, k) == z3.Select(A, k), z3.Select(K2, z3.Select(A, k)) == z3.Select(K, z3.Select(A, k)),
                           z3.Implies(k != where, z3.Select(D2, z3.Select(A, k)) == z3.Select(D, z3.Select(A, k))))))
            else:
                self.holds(s, 'one new entry', n == c + 1)
                self.holds(s, 'new entry has the name and value', z3.And(z3.Select(K2, z3.Select(A2, c)) == self.zk, z3.Select(D2, z3.Select(A2, c)) == zd))
                self.holds(s, 'other entries unchanged', z3.Implies(z3.And(k >= 0, k < c), z3.And(z3.Select(A2, k) == z3.Select(A, k), z3.Select(K2, z3.Select(A, k)) == z3.Select(K, z3.Select(A, k)),
                           z3.Select(D2, z3.Select(A, k)) == z3.Select(D, z3.Select(A, k)))))
            self.holds(s, 'names stay distinct', self.distinct(A2, K2, n, z3.Ints('p! q!')))

    def forall_data(self):
        st, t = self.setup()
        f = self.callback(1)
        self.scope = []

        def cb(ex, s, args):
            v = to_z3(ex.as_u(s, args[0], 64))
            i = s.data['calls'][0]
            self.holds(s, 'callback receives the next value', z3.And(to_z3(i) < to_z3(self.cnt), v == z3.Select(self.D, z3.Select(self.arr0, to_z3(i)))))
            s.data['calls'] = [i + 1]
        self.ex.contracts['callback'] = cb
        CallInv(self, 'symtab_forall_data')
        for s, _ in self.fn(st, 'symtab_forall_data', t, f):
            self.holds(s, 'every value visited once', to_z3(s.data['calls'][0]) == to_z3(self.cnt))

    def body(self):
        for nm in ('symtab_at', 'symtab_has'):
            self.case(nm, self.at, nm)
        for p in (False, True):
            for f in (False, True):
                self.case('put %s%s' % ('over an existing name' if p else 'a new name', ' in a full table' if f else ''), self.put, p, f)
        self.case('forall_data', self.forall_data)
