"""Contracts for GMP (mpz_*, mpn_*), libc and allocation, over mathematical integers."""
import z3
from .poly import Poly, P, fresh_name
from .exec import Ptr, FnPtr, SI, UNDEF, MemError, to_z3, FVal
from .ir import Unsupported, IntT, PtrT
from . import limbs
from .limbs import B

C = {}


def contract(*names):
    def d(f):
        for n in names:
            C[n] = f
        return f
    return d


# ---------------------------------------------------------------- integer normal form

def inormal(st, p):
    """apply monomial rewrite rules (products of a value with its inverse)"""
    rules = st.data.get('irules')
    if not rules:
        return p
    n = 0
    while n < 50:
        n += 1
        hit = False
        for mono, tail in rules:
            t = {}
            extra = Poly()
            for m, c in p.t.items():
                q = mono_div(m, mono)
                if q is None:
                    t[m] = c
                else:
                    extra = extra + Poly({q: c}) * tail
                    hit = True
            if hit:
                p = Poly(t) + extra
                break
        if not hit:
            break
    return p


def mono_div(m, d):
    dm = dict(m)
    for v, e in d:
        x = dm.get(v, 0)
        if x < e:
            return None
        if x == e:
            dm.pop(v)
        else:
            dm[v] = x - e
    return tuple(sorted(dm.items()))


def cong_zero(ex, st, p, m):
    """is p == 0 (mod m) by normalisation?  m: int or Poly"""
    p = inormal(st, p)
    if p.is_zero():
        return True
    m = P(m)
    if m.is_const():
        return limbs.divides(p, int(m.const_value()))
    # m a single symbol
    if len(m.t) == 1:
        mono, c = next(iter(m.t.items()))
        if c == 1:
            return all(mono_div(x, mono) is not None for x in p.t)
    return False


def prove_cong(ex, st, name, p, m, detail=""):
    """obligation p == 0 mod m, using path equalities when needed"""
    ok = cong_zero(ex, st, p, m)
    if not ok:
        ok = cong_by_cases(ex, st, p, m)
    ex.oblige(st, name, 'cong', 'proved' if ok else 'refuted', detail + ("" if ok else " residue: %r" % inormal(st, p)))
    return ok


def cong_by_cases(ex, st, p, m):
    """use equalities implied by the path condition: try to find small k with p == k*m, or entailed value"""
    z = to_z3(inormal(st, p))
    zm = to_z3(P(m))
    for k in (0, 1, -1, 2, -2):
        if ex.check(st, [z != k * zm]) == z3.unsat:
            return True
    # residue modulo m as value: remove multiples of m and test entailment
    r = inormal(st, p)
    mm = P(m)
    if len(mm.t) == 1:
        mono, c = next(iter(mm.t.items()))
        rest = Poly({x: k for x, k in r.t.items() if mono_div(x, mono) is None})
        zr = to_z3(rest)
        for k in (0, 1, -1, 2, -2):
            if ex.check(st, [zr != k * zm]) == z3.unsat:
                return True
    return False


# ---------------------------------------------------------------- mpz values

def mpz_cell(st, ptr):
    if not isinstance(ptr, Ptr):
        raise MemError("mpz access through %s" % ("null" if ptr == 0 else repr(ptr)))
    o = st.objs[ptr.obj]
    if o.freed:
        raise MemError("use of freed mpz")
    return o


def mget(ex, st, ptr):
    o = mpz_cell(st, ptr)
    if o.mpz is not None and ptr.off in o.mpz:
        return o.mpz[ptr.off]
    sz = o.cells.get(ptr.off + 4)
    d = o.cells.get(ptr.off + 8)
    if sz is not None and d is not None and isinstance(d[1], Ptr):
        n = sz[1]
        if not isinstance(n, int):
            raise Unsupported("symbolic _mp_size")
        neg = n >> 31
        if neg:
            n = (1 << 32) - n
        v = limbs.read(ex, st, d[1], n)
        return -v if neg else v
    raise MemError("use of uninitialised mpz %s+%s" % (o.name, ptr.off))


def mset(ex, st, ptr, v):
    o = mpz_cell(st, ptr)
    if o.readonly:
        raise MemError("write to read-only mpz")
    if o.mpz is not None and ptr.off in o.mpz:
        st.wobj(ptr.obj).mpz[ptr.off] = v
        return
    d = o.cells.get(ptr.off + 8)
    sz = o.cells.get(ptr.off + 4)
    if d is not None and isinstance(d[1], Ptr) and sz is not None:
        if st.objs[d[1].obj].name.startswith('mpzraw'):
            # an mpz whose limbs had been exposed: back to the abstract view
            w = st.wobj(ptr.obj)
            for k in (0, 4, 8):
                w.cells.pop(ptr.off + k, None)
            if w.mpz is None:
                w.mpz = {}
            w.mpz[ptr.off] = v
            return
        raise Unsupported("assignment to hand-built mpz")
    raise MemError("assignment to uninitialised mpz %s" % o.name)


def mset_any(ex, st, ptr, v):
    """assignment that also handles an mpz built by hand around somebody's limbs; the caller
    relies on the value fitting the stated allocation, so that GMP never reallocates"""
    o = mpz_cell(st, ptr)
    if o.mpz is not None and ptr.off in o.mpz:
        mset(ex, st, ptr, v)
        return None
    d = o.cells.get(ptr.off + 8)
    al = o.cells.get(ptr.off)
    if d is None or al is None or not isinstance(d[1], Ptr) or not isinstance(al[1], int) or st.objs[d[1].obj].name.startswith('mpzraw'):
        mset(ex, st, ptr, v)
        return None
    n = al[1]
    zv = to_z3(v)
    if ex.check(st, [z3.Or(zv < 0, zv >= B ** n)]) != z3.unsat:
        raise MemError("result may not fit the hand-built mpz: GMP would reallocate foreign limbs")
    outs, cur = [], st
    for k in range(n + 1):
        if cur is None:
            break
        br = ex.branch(cur, zv < B ** k) if not v.is_const() else [(cur, int(v.const_value()) < B ** k)]
        cur = None
        for s, b in br:
            if not b:
                cur = s
                continue
            if k:
                limbs.write(ex, s, d[1], k, v)
            for j in range(k, n):
                x = Poly.fresh("scratch")
                ex.assume(s, z3.And(to_z3(x) >= 0, to_z3(x) < B))
                limbs.write(ex, s, Ptr(d[1].obj, d[1].off + 8 * j), 1, x)
            s.wobj(ptr.obj).cells[ptr.off + 4] = (4, k)
            outs.append((s, None))
    return outs


def minit(ex, st, ptr, v=0):
    if not isinstance(ptr, Ptr):
        raise MemError("mpz_init through null")
    o = st.wobj(ptr.obj)
    if o.freed:
        raise MemError("mpz_init on freed memory")
    if o.mpz is None:
        o.mpz = {}
    for k in (0, 4, 8):
        o.cells.pop(ptr.off + k, None)
    o.mpz[ptr.off] = P(v)


def load_mpz_part(ex, st, o, off, n):
    for base in o.mpz:
        if base <= off < base + 16:
            v = o.mpz[base]
            if off - base == 4 and n == 4:
                if v.is_const():
                    c = int(v.const_value())
                    k = (abs(c).bit_length() + 63) // 64
                    return (k if c >= 0 else -k) % (1 << 32)
                return size_si(ex, st, v)
            if off - base == 8 and n == 8:
                return expose(ex, st, o, base)
            if off - base == 0 and n == 4:
                return SI(32, Poly.fresh("alloc"), 1, 1 << 30)
            raise Unsupported("mpz part")
    return None


def size_si(ex, st, v):
    t = st.data.setdefault('msize', {})
    k = v.key()
    if k not in t:
        s = Poly.fresh("size")
        z = to_z3(s)
        zv = to_z3(v)
        ex.assume(st, z3.And((z == 0) == (zv == 0), (z > 0) == (zv > 0), z > -(1 << 31), z < (1 << 31)))
        for j in range(1, 6):
            ex.assume(st, z3.Implies(z3.And(zv < B ** j, zv > -B ** j), z3.And(z <= j, z >= -j)))
            ex.assume(st, z3.Implies(zv >= B ** j, z > j))
        t[k] = s
    return SI(32, t[k], -(1 << 31) + 1, (1 << 31) - 1)


def expose(ex, st, o, base, alloc=None):
    """materialise the limb array of an mpz"""
    v = o.mpz[base]
    n = alloc
    if n is None:
        # enough room for the value: find a bound
        zv = to_z3(v)
        if ex.check(st, [zv < 0]) != z3.unsat:
            raise Unsupported("negative mpz limbs exposed")
        for j in (1, 2, 3, 4, 6, 8, 16, 40):
            if ex.check(st, [zv >= B ** j]) == z3.unsat:
                n = j
                break
        else:
            # unbounded size: only the low limb can be looked at
            key = ('mpzview', o.id, base, v.key())
            t = st.data.setdefault('mpzviews', {})
            if key not in t:
                p = st.alloc(None, 'heap', 'mpzview')

                def lazy(ex, st, o, off, ty, nb, v=v):
                    if off != 0 or nb != 8:
                        raise Unsupported("high limb of an integer of unbounded size")
                    return SI(64, ex.divmod(st, v, P(B))[1], 0, B - 1)
                st.wobj(p.obj).lazy = lazy
                st.wobj(p.obj).readonly = True
                t[key] = p
            return t[key]
    # a read-only view: reads of the limbs see the current value
    key = ('mpzview', o.id, base, v.key())
    t = st.data.setdefault('mpzviews', {})
    if key in t:
        return t[key]
    p = st.alloc(8 * n, 'heap', 'mpzview')
    limbs.write(ex, st, p, n, v)
    st.wobj(p.obj).readonly = True
    t[key] = p
    return p


def store_mpz_part(ex, st, o, off, n, v):
    for base in list(o.mpz):
        if base <= off < base + 16:
            if off - base in (0, 4) and n == 4 or off - base == 8:
                raise Unsupported("direct store into mpz representation")
    return False


@contract('mpz_init', '__gmpz_init')
def _(ex, st, a):
    minit(ex, st, a[0])


@contract('__gmpz_inits')
def _(ex, st, a):
    for x in a:
        if x == 0:
            break
        minit(ex, st, x)


@contract('__gmpz_clear')
def _(ex, st, a):
    o = mpz_cell(st, a[0])
    if o.mpz is not None and a[0].off in o.mpz:
        del st.wobj(a[0].obj).mpz[a[0].off]
        return
    if o.cells.get(a[0].off + 8) is not None:
        w = st.wobj(a[0].obj)
        for k in (0, 4, 8):
            w.cells.pop(a[0].off + k, None)
        return
    raise MemError("mpz_clear of uninitialised mpz")


@contract('__gmpz_init_set')
def _(ex, st, a):
    v = mget(ex, st, a[1])
    minit(ex, st, a[0], 0)
    mset(ex, st, a[0], v)


@contract('__gmpz_init_set_ui')
def _(ex, st, a):
    minit(ex, st, a[0])
    mset(ex, st, a[0], ex.as_u(st, a[1], 64))


@contract('__gmpz_init_set_si')
def _(ex, st, a):
    minit(ex, st, a[0])
    mset(ex, st, a[0], ex.as_s(st, a[1], 64))


@contract('__gmpz_set')
def _(ex, st, a):
    o = mpz_cell(st, a[0])
    s = mpz_cell(st, a[1])
    # hand-built destination (limb copy idiom): copies _mp_size limbs
    if not (o.mpz is not None and a[0].off in o.mpz):
        d = o.cells.get(a[0].off + 8)
        sd = s.cells.get(a[1].off + 8)
        sz = s.cells.get(a[1].off + 4)
        al = o.cells.get(a[0].off)
        if d is not None and sd is not None and isinstance(d[1], Ptr) and isinstance(sz[1], int) and not st.objs[d[1].obj].name.startswith('mpzraw'):
            n = sz[1]
            if al is None or not isinstance(al[1], int) or al[1] < n:
                raise MemError("mpz_set would reallocate foreign limbs")
            if a[0] != a[1] and d[1] != sd[1]:
                limbs.write(ex, st, d[1], n, limbs.read(ex, st, sd[1], n))
            return
    mset(ex, st, a[0], mget(ex, st, a[1]))


@contract('__gmpz_set_ui')
def _(ex, st, a):
    mset(ex, st, a[0], ex.as_u(st, a[1], 64))


@contract('__gmpz_set_si')
def _(ex, st, a):
    mset(ex, st, a[0], ex.as_s(st, a[1], 64))


@contract('__gmpz_add')
def _(ex, st, a):
    mset(ex, st, a[0], mget(ex, st, a[1]) + mget(ex, st, a[2]))


@contract('__gmpz_sub')
def _(ex, st, a):
    mset(ex, st, a[0], mget(ex, st, a[1]) - mget(ex, st, a[2]))


@contract('__gmpz_mul')
def _(ex, st, a):
    x, y = mget(ex, st, a[1]), mget(ex, st, a[2])
    r = x * y
    product_facts(ex, st, x, y, r)
    mset(ex, st, a[0], r)


def product_facts(ex, st, x, y, r):
    if x.is_const() or y.is_const():
        return
    zx, zy, zr = to_z3(x), to_z3(y), to_z3(r)
    ex.assume(st, (zr == 0) == z3.Or(zx == 0, zy == 0))
    ex.assume(st, z3.Implies(z3.And(zx >= 0, zy >= 0), zr >= 0))


@contract('__gmpz_add_ui')
def _(ex, st, a):
    mset(ex, st, a[0], mget(ex, st, a[1]) + ex.as_u(st, a[2], 64))


@contract('__gmpz_sub_ui')
def _(ex, st, a):
    mset(ex, st, a[0], mget(ex, st, a[1]) - ex.as_u(st, a[2], 64))


@contract('__gmpz_ui_sub')
def _(ex, st, a):
    mset(ex, st, a[0], ex.as_u(st, a[1], 64) - mget(ex, st, a[2]))


@contract('__gmpz_mul_ui')
def _(ex, st, a):
    x, y = mget(ex, st, a[1]), ex.as_u(st, a[2], 64)
    product_facts(ex, st, x, y, x * y)
    mset(ex, st, a[0], x * y)


@contract('__gmpz_mul_si')
def _(ex, st, a):
    x, y = mget(ex, st, a[1]), ex.as_s(st, a[2], 64)
    product_facts(ex, st, x, y, x * y)
    mset(ex, st, a[0], x * y)


def ipow(ex, st, v, e):
    """v^e for a symbolic exponent: a symbol per (v, e) with the facts about 0, 1 and -1"""
    t = st.data.setdefault('ipow', {})
    k = (v.key(), e.key())
    if k not in t:
        r = Poly.fresh("pow")
        par = ex.divmod(st, e, P(2))[1]
        zr, zv, ze = to_z3(r), to_z3(v), to_z3(e)
        ex.assume(st, z3.And(z3.Implies(ze == 0, zr == 1), z3.Implies(ze == 1, zr == zv), z3.Implies(z3.And(zv == 0, ze > 0), zr == 0), z3.Implies(zv == 1, zr == 1),
                             z3.Implies(zv == -1, zr == 1 - 2 * to_z3(par))))
        t[k] = r
    return t[k]


@contract('__gmpz_pow_ui')
def _(ex, st, a):
    if not isinstance(a[2], int) or a[2] > 64 and not (a[2] < 100000 and mget(ex, st, a[1]).is_const()):
        mset(ex, st, a[0], ipow(ex, st, mget(ex, st, a[1]), ex.as_u(st, a[2], 64)))
        return
    mset(ex, st, a[0], mget(ex, st, a[1]) ** a[2] if a[2] else P(1))


@contract('__gmpz_neg')
def _(ex, st, a):
    mset(ex, st, a[0], -mget(ex, st, a[1]))


@contract('__gmpz_abs')
def _(ex, st, a):
    v = mget(ex, st, a[1])
    outs = []
    for s, neg in ex.branch(st, to_z3(v) < 0):
        mset(ex, s, a[0], -v if neg else v)
        outs.append((s, None))
    return outs


@contract('__gmpz_mul_2exp')
def _(ex, st, a):
    if not isinstance(a[2], int):
        raise Unsupported("symbolic shift")
    mset(ex, st, a[0], mget(ex, st, a[1]) * (1 << a[2]))


def fdiv2(ex, st, v, k):
    return ex.divmod(st, v, P(1 << k))


@contract('__gmpz_fdiv_q_2exp')
def _(ex, st, a):
    v = mget(ex, st, a[1])
    if not isinstance(a[2], int):
        raise Unsupported("symbolic shift")
    mset(ex, st, a[0], fdiv2(ex, st, v, a[2])[0])


@contract('__gmpz_tdiv_q_2exp')
def _(ex, st, a):
    v = mget(ex, st, a[1])
    if not isinstance(a[2], int):
        raise Unsupported("symbolic shift")
    if ex.check(st, [to_z3(v) < 0]) == z3.unsat:
        mset(ex, st, a[0], fdiv2(ex, st, v, a[2])[0])
        return
    outs = []
    for s, neg in ex.branch(st, to_z3(v) < 0):
        mset(ex, s, a[0], -fdiv2(ex, s, -v, a[2])[0] if neg else fdiv2(ex, s, v, a[2])[0])
        outs.append((s, None))
    return outs


@contract('__gmpz_fdiv_r_2exp', '__gmpz_tdiv_r_2exp')
def _(ex, st, a):
    v = mget(ex, st, a[1])
    if not isinstance(a[2], int):
        raise Unsupported("symbolic shift")
    mset(ex, st, a[0], fdiv2(ex, st, v, a[2])[1])


@contract('__gmpz_mod', '__gmpz_fdiv_r')
def _(ex, st, a):
    v, m = mget(ex, st, a[1]), mget(ex, st, a[2])
    need_pos(ex, st, m)
    mset(ex, st, a[0], ex.divmod(st, v, m)[1])


@contract('__gmpz_fdiv_q')
def _(ex, st, a):
    v, m = mget(ex, st, a[1]), mget(ex, st, a[2])
    need_pos(ex, st, m)
    mset(ex, st, a[0], ex.divmod(st, v, m)[0])


def tdiv(ex, st, v, m):
    """truncating division: -> (q, r)"""
    t = st.data.setdefault('tdivs', {})
    k = (v.key(), m.key())
    if k not in t:
        z = to_z3(m)
        c = ex.check(st, [z == 0])
        if c != z3.unsat:
            raise MemError("division by zero") if c == z3.sat and not any('M:' in str(x) for x in st.pc) else Unsupported("divisor not shown nonzero")
        q = None
        for e in st.data.get('exact', ()):
            if (e * m - v).is_zero():
                q = e
        if q is None:
            q = Poly.fresh("tq")
            r = v - q * m
            zr, zv = to_z3(r), to_z3(v)
            ex.assume(st, z3.And(z3.Implies(zv >= 0, zr >= 0), z3.Implies(zv <= 0, zr <= 0), z3.If(z > 0, z3.And(zr < z, zr > -z), z3.And(zr < -z, zr > z))))
        t[k] = (q, v - q * m)
    return t[k]


@contract('__gmpz_tdiv_q')
def _(ex, st, a):
    mset(ex, st, a[0], tdiv(ex, st, mget(ex, st, a[1]), mget(ex, st, a[2]))[0])


@contract('__gmpz_tdiv_r')
def _(ex, st, a):
    mset(ex, st, a[0], tdiv(ex, st, mget(ex, st, a[1]), mget(ex, st, a[2]))[1])


def need_pos(ex, st, m):
    if m.is_const():
        if m.const_value() <= 0:
            raise MemError("division by non-positive integer")
        return
    if ex.check(st, [to_z3(m) <= 0]) != z3.unsat:
        raise Unsupported("modulus not known positive")


@contract('__gmpz_divexact', '__gmpz_divexact_ui')
def _(ex, st, a):
    v, m = mget(ex, st, a[1]), mget(ex, st, a[2]) if isinstance(a[2], Ptr) else P(ex.as_u(st, a[2], 64))
    v = inormal(st, v)
    if m.is_const() and limbs.divides(v, int(m.const_value())):
        mset(ex, st, a[0], Poly({k: c // int(m.const_value()) for k, c in v.t.items()}))
        return
    q = Poly.fresh("quot")
    st.data.setdefault('divexact', []).append((v, m, q))
    ex.assume(st, to_z3(q * m) == to_z3(v))
    mset(ex, st, a[0], q)


@contract('__gmpz_cmp')
def _(ex, st, a):
    return sgn_si(ex, st, mget(ex, st, a[0]) - mget(ex, st, a[1]))


@contract('__gmpz_cmp_ui', '_mpz_cmp_ui', '__gmpz_cmp_ui')
def _(ex, st, a):
    return sgn_si(ex, st, mget(ex, st, a[0]) - ex.as_u(st, a[1], 64))


@contract('__gmpz_cmp_si')
def _(ex, st, a):
    return sgn_si(ex, st, mget(ex, st, a[0]) - ex.as_s(st, a[1], 64))


@contract('__gmpz_cmpabs_ui')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if ex.check(st, [to_z3(v) < 0]) == z3.unsat:
        return sgn_si(ex, st, v - ex.as_u(st, a[1], 64))
    outs = []
    for s, neg in ex.branch(st, to_z3(v) < 0):
        outs.append((s, sgn_si(ex, s, (-v if neg else v) - ex.as_u(s, a[1], 64))))
    return outs


def sgn_si(ex, st, d):
    """C int with the sign of d (any magnitude)"""
    if d.is_const():
        c = d.const_value()
        return 0 if c == 0 else (1 if c > 0 else (1 << 32) - 1)
    t = st.data.setdefault('sgns', {})
    k = d.key()
    if k in t:
        s = t[k]
    else:
        s = Poly.fresh("sgn")
        t[k] = s
        z, zd = to_z3(s), to_z3(d)
        ex.assume(st, z3.And((z == 0) == (zd == 0), (z > 0) == (zd > 0), z > -(1 << 31), z < (1 << 31)))
    return SI(32, s, -(1 << 31) + 1, (1 << 31) - 1)


@contract('__gmpz_tstbit')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    k = a[1]
    if isinstance(k, int):
        if v.is_const():
            return (int(v.const_value()) >> k) & 1
        if ex.check(st, [to_z3(v) < 0]) != z3.unsat:
            raise Unsupported("tstbit of negative")
        q = ex.divmod(st, v, P(1 << k))[0] if k else v
        r = ex.divmod(st, q, P(2))[1]
        if r.is_const():
            return int(r.const_value())
        return SI(32, r, 0, 1)
    h = ex.contracts.get('#tstbit')
    if h:
        return h(ex, st, v, k)
    raise Unsupported("symbolic bit index")


@contract('__gmpz_popcount')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if not v.is_const() or v.const_value() < 0:
        raise Unsupported("popcount of an unknown number")
    return bin(int(v.const_value())).count('1')


@contract('__gmpz_setbit')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if not isinstance(a[1], int):
        raise Unsupported("symbolic setbit")
    if v.is_const():
        mset(ex, st, a[0], P(int(v.const_value()) | (1 << a[1])))
        return
    b = ex.divmod(st, ex.divmod(st, v, P(1 << a[1]))[0], P(2))[1]
    mset(ex, st, a[0], v + (P(1) - b) * (1 << a[1]))


@contract('__gmpz_sizeinbase')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if v.is_const() and a[1] == 2:
        return max(1, abs(int(v.const_value())).bit_length())
    h = ex.contracts.get('#sizeinbase')
    if h:
        return h(ex, st, v, a[1])
    t = st.data.setdefault('sib', {})
    k = (v.key(), a[1])
    if k not in t:
        s = Poly.fresh("bits")
        z = to_z3(s)
        ex.assume(st, z3.And(z >= 1, z < (1 << 33)))
        zv = to_z3(v)
        if a[1] == 2:
            for j in list(range(0, 20)) + [64, 128, 192, 256]:
                ex.assume(st, z3.Implies(zv < (1 << j), z <= max(1, j)))
                ex.assume(st, z3.Implies(zv >= (1 << j), z >= j + 1))
            # monotone
            for u, su in st.data.setdefault('sibv', []):
                zu, zs = to_z3(u), to_z3(su)
                ex.assume(st, z3.And(z3.Implies(z3.And(zu >= 0, zu <= zv), zs <= z), z3.Implies(z3.And(zv >= 0, zv <= zu), z <= zs)))
            st.data['sibv'] = st.data['sibv'] + [(v, s)]
        t[k] = s
    return SI(64, t[k], 1, (1 << 34))


@contract('__gmpz_size')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if v.is_const():
        return (abs(int(v.const_value())).bit_length() + 63) // 64
    s = size_si(ex, st, v)
    # decide when entailed
    for j in range(0, 9):
        if ex.check(st, [to_z3(s.p) != j]) == z3.unsat:
            return j
    return SI(64, s.p, 0, 1 << 31)


@contract('__gmpz_get_ui')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if v.is_const():
        return abs(int(v.const_value())) % B
    if ex.check(st, [to_z3(v) < 0]) != z3.unsat:
        raise Unsupported("get_ui of negative")
    lo = ex.divmod(st, v, P(B))[1]
    if lo.is_const():
        return int(lo.const_value())
    return SI(64, lo, 0, B - 1)


@contract('__gmpz_get_si')
def _(ex, st, a):
    v = mget(ex, st, a[0])
    if ex.check(st, [z3.Or(to_z3(v) < -(1 << 63), to_z3(v) >= (1 << 63))]) != z3.unsat:
        raise Unsupported("get_si out of range")
    return SI(64, v, -(1 << 63), (1 << 63) - 1)


@contract('__gmpz_fits_ulong_p')
def _(ex, st, a):
    v = to_z3(mget(ex, st, a[0]))
    return ex.bool_si(st, z3.And(v >= 0, v < B), 32)


@contract('__gmpz_invert')
def _(ex, st, a):
    v, m = mget(ex, st, a[1]), mget(ex, st, a[2])
    t = st.data.setdefault('invs', {})
    key = (v.key(), m.key())
    if key not in t:
        i = Poly.fresh("minv")
        k = Poly.fresh("mk")
        z = to_z3(i)
        ex.assume(st, z3.And(z >= 0, z < to_z3(m)))
        ex.assume(st, z3.Implies(to_z3(m) > 1, z > 0))
        # i*v = 1 + k*m
        lead = None
        prod = i * v
        for mono, c in prod.t.items():
            if c == 1 and (lead is None or len(mono) > len(lead)):
                lead = mono
        if lead is None:
            if v.is_const() and v.const_value() == 1:
                t[key] = P(1)
                mset(ex, st, a[0], P(1))
                return 1
            raise Unsupported("invert of constant")
        st.data['irules'] = list(st.data.get('irules', ())) + [(lead, P(1) + k * m - (prod - Poly({lead: 1})))]
        t[key] = i
    st.data.setdefault('invert_calls', []).append((v, m))
    mset(ex, st, a[0], t[key])
    return 1


@contract('__gmpz_powm', '__gmpz_powm_ui')
def _(ex, st, a):
    b = mget(ex, st, a[1])
    e = a[2]
    e = mget(ex, st, e) if isinstance(e, Ptr) else ex.as_u(st, e, 64)
    m = mget(ex, st, a[3])
    if e.is_const() and 0 <= e.const_value() <= 4:
        r = ex.divmod(st, b ** int(e.const_value()), m)[1]
    else:
        r = Poly.fresh("powm")
        z = to_z3(r)
        ex.assume(st, z3.And(z >= 0, z < to_z3(m)))
        st.data['powm'] = st.data.get('powm', []) + [(b, e, m, r)]
    return mset_any(ex, st, a[0], r)


@contract('__gmpz_jacobi', '__gmpz_legendre')
def _(ex, st, a):
    b, m = mget(ex, st, a[0]), mget(ex, st, a[1])
    t = st.data.setdefault('jac', {})
    k = (b.key(), m.key())
    if k not in t:
        r = Poly.fresh("jacobi")
        z = to_z3(r)
        ex.assume(st, z3.And(z >= -1, z <= 1))
        t[k] = r
        st.data['jaclist'] = st.data.get('jaclist', []) + [(b, m, r)]
    return SI(32, t[k], -1, 1)


@contract('__gmpz_gcd')
def _(ex, st, a):
    raise Unsupported("gcd")


@contract('__gmpz_realloc', '_mpz_realloc', '__gmpz_realloc2')
def _(ex, st, a):
    """exposes the limb array of the mpz with room for n limbs"""
    n = a[1]
    if not isinstance(n, int):
        raise Unsupported("symbolic realloc")
    o = mpz_cell(st, a[0])
    if o.mpz is not None and a[0].off in o.mpz:
        v = o.mpz[a[0].off]
        o = st.wobj(a[0].obj)
        del o.mpz[a[0].off]
        p = st.alloc(8 * max(n, 1), 'heap', 'mpzraw')
        o.cells[a[0].off] = (4, max(n, 1))
        o.cells[a[0].off + 4] = (4, 0)
        o.cells[a[0].off + 8] = (8, p)
        return p
    d = o.cells.get(a[0].off + 8)
    if d is None:
        raise MemError("realloc of uninitialised mpz")
    return d[1]


@contract('__gmpz_export')
def _(ex, st, a):
    data, cnt, order, size, endian, nails, z = a
    v = mget(ex, st, z)
    order = order - (1 << 32) if order >> 31 else order
    if data == 0:
        raise Unsupported("mpz_export to new memory")
    if size == 8 and order == -1 and nails == 0:
        # little-endian limbs: writes exactly the significant limbs
        outs = []
        todo = [st]
        zv = to_z3(v)
        if ex.check(st, [zv < 0]) != z3.unsat:
            raise Unsupported("export of negative")
        k = 0
        cur = st
        while cur is not None:
            br = ex.branch(cur, zv < B ** k) if not v.is_const() else [(cur, int(v.const_value()) < B ** k)]
            nxt = None
            for s, b in br:
                if b:
                    if k:
                        limbs.write(ex, s, data, k, v)
                    if isinstance(cnt, Ptr):
                        cnt_store(s, cnt, k)
                    outs.append((s, data))
                else:
                    nxt = s
            cur = nxt
            k += 1
            if k > 40:
                raise Unsupported("export too long")
        return outs
    if size == 1 and order == 1 and nails == 0:
        # big-endian bytes
        return export_bytes(ex, st, data, cnt, v, z)
    raise Unsupported("mpz_export mode")


def cnt_store(s, cnt, k):
    o = s.wobj(cnt.obj)
    if o.segs is not None:
        o.segs = [g for g in o.segs if g[0] != cnt.off // 8] + [(cnt.off // 8, 1, P(k))]
        o.segs.sort(key=lambda g: g[0])
        return
    o.cells[cnt.off] = (8, k)


def export_bytes(ex, st, data, cnt, v, z):
    """big-endian bytes of v > 0, exactly as many as its size"""
    g = st.objs[data.obj].ghost if isinstance(data, Ptr) else None
    if not hasattr(g, 'put_num'):
        raise Unsupported("byte export")
    if ex.check(st, [to_z3(v) <= 0]) != z3.unsat:
        raise Unsupported("byte export of a number that may be zero or negative")
    bits = C['__gmpz_sizeinbase'](ex, st, [z, 2])
    n = P((bits + 7) // 8) if isinstance(bits, int) else ex.divmod(st, bits.p + 7, P(8))[0]
    g.put_num(ex, st, data, n, v)
    if isinstance(cnt, Ptr):
        ex.store(st, cnt, IntT(64), SI(64, n, 0, 1 << 40), None)
    return data


@contract('__gmpz_import')
def _(ex, st, a):
    z, count, order, size, endian, nails, data = a
    order = order - (1 << 32) if order >> 31 else order
    if size == 8 and order == -1 and isinstance(count, int):
        mset(ex, st, z, limbs.read(ex, st, data, count))
        return
    if size == 1 and order == 1:
        o = ex.deref(st, data, None, "import")
        v = byteval(ex, st, data, count)
        mset(ex, st, z, v)
        return
    raise Unsupported("mpz_import mode")


def byteval(ex, st, data, count):
    """value of `count` big-endian bytes at data: ghost byte-string objects"""
    if isinstance(data, Ptr) and hasattr(st.objs[data.obj].ghost, 'get_num'):
        return st.objs[data.obj].ghost.get_num(ex, st, data, P(count) if isinstance(count, int) else ex.as_u(st, count, 64))
    t = st.data.setdefault('bytestr', {})
    ck = count if isinstance(count, int) else count.p.key()
    k = (data.obj, data.off if isinstance(data.off, int) else data.off.key(), ck)
    if k not in t:
        v = Poly.fresh("bytes")
        z = to_z3(v)
        ex.assume(st, z >= 0)
        if isinstance(count, int):
            ex.assume(st, z < 256 ** count)
        t[k] = v
    return t[k]


# ---------------------------------------------------------------- mpn

def nlimbs(ex, st, n):
    if isinstance(n, int):
        return n if n < (1 << 40) else n - (1 << 64)
    raise Unsupported("symbolic limb count")


def carry_out(ex, st, tot, n, signed=False, maxc=1):
    """tot = res + c*B^n with 0<=res<B^n ; returns (res, c)"""
    m = B ** n
    if tot.is_const():
        c = int(tot.const_value()) // m
        return P(int(tot.const_value()) % m), P(c)
    z = to_z3(tot)
    if ex.check(st, [z3.Or(z < 0, z >= m)]) == z3.unsat:
        return tot, P(0)
    t = st.data.setdefault('carries', {})
    key = (tot.key(), n)
    if key in t:
        return t[key]
    c = Poly.fresh("c")
    res = tot - c * m
    zr, zc = to_z3(res), to_z3(c)
    ex.assume(st, z3.And(zr >= 0, zr < m))
    if signed:
        ex.assume(st, z3.And(zc >= -maxc, zc <= 0))
    else:
        ex.assume(st, z3.And(zc >= 0, zc <= maxc))
    t[key] = (res, c)
    return res, c


def limb_si(p, hi=B - 1):
    if p.is_const():
        return int(p.const_value()) % B
    return SI(64, p, 0, hi)


@contract('__gmpn_add_n', 'mpn_add_n')
def _(ex, st, a):
    n = nlimbs(ex, st, a[3])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) + limbs.read(ex, st, a[2], n), n)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c, 1)


@contract('__gmpn_sub_n', 'mpn_sub_n')
def _(ex, st, a):
    n = nlimbs(ex, st, a[3])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) - limbs.read(ex, st, a[2], n), n, True)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(-c, 1)


@contract('__gmpn_add_1', 'mpn_add_1', '__gmpn_add_1')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) + ex.as_u(st, a[3], 64), n)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c, 1)


@contract('__gmpn_sub_1', 'mpn_sub_1')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) - ex.as_u(st, a[3], 64), n, True)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(-c, 1)


@contract('__gmpn_add', 'mpn_add')
def _(ex, st, a):
    n, m = nlimbs(ex, st, a[2]), nlimbs(ex, st, a[4])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) + limbs.read(ex, st, a[3], m), n)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c, 1)


@contract('__gmpn_sub', 'mpn_sub')
def _(ex, st, a):
    n, m = nlimbs(ex, st, a[2]), nlimbs(ex, st, a[4])
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) - limbs.read(ex, st, a[3], m), n, True)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(-c, 1)


def mulfacts(ex, st, s, v):
    """0 <= v <= B-1 and s >= 0  =>  0 <= s*v and s*v <= s*(B-1)"""
    if s.is_const() or v.is_const():
        return
    pr = s * v
    ex.assume(st, to_z3(pr) >= 0)
    ex.assume(st, to_z3(s * (B - 1) - pr) >= 0)


@contract('__gmpn_mul_1', 'mpn_mul_1')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    s = limbs.read(ex, st, a[1], n)
    v = limbs.small_multiplier(ex, st, a[3])
    if v is None:
        v = ex.as_u(st, a[3], 64)
    mulfacts(ex, st, s, v)
    r, c = carry_out(ex, st, s * v, n, maxc=B - 1)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c)


@contract('__gmpn_addmul_1', 'mpn_addmul_1')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    s = limbs.read(ex, st, a[1], n)
    v = limbs.small_multiplier(ex, st, a[3])
    if v is None:
        v = ex.as_u(st, a[3], 64)
    mulfacts(ex, st, s, v)
    r, c = carry_out(ex, st, inormal(st, limbs.read(ex, st, a[0], n) + s * v), n, maxc=B - 1)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c)


@contract('__gmpn_mul_n', 'mpn_mul_n')
def _(ex, st, a):
    n = nlimbs(ex, st, a[3])
    x, y = limbs.read(ex, st, a[1], n), limbs.read(ex, st, a[2], n)
    if a[0].obj in (a[1].obj, a[2].obj):
        o1 = a[0].off
        for q in (a[1], a[2]):
            if q.obj == a[0].obj and not (q.off + 8 * n <= o1 or q.off >= o1 + 16 * n):
                raise MemError("mpn_mul_n operands overlap")
    r = x * y
    product_bound(ex, st, x, y, r, n)
    limbs.write(ex, st, a[0], 2 * n, r)


def product_bound(ex, st, x, y, r, n):
    zr = to_z3(r)
    ex.assume(st, z3.And(zr >= 0, zr < B ** (2 * n)))
    if not x.is_const() and not y.is_const():
        ex.assume(st, z3.Implies(zr == 0, z3.Or(to_z3(x) == 0, to_z3(y) == 0)))


@contract('__gmpn_sqr', 'mpn_sqr')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    x = limbs.read(ex, st, a[1], n)
    product_bound(ex, st, x, x, x * x, n)
    limbs.write(ex, st, a[0], 2 * n, x * x)


@contract('__gmpn_mul', 'mpn_mul')
def _(ex, st, a):
    n, m = nlimbs(ex, st, a[2]), nlimbs(ex, st, a[4])
    x, y = limbs.read(ex, st, a[1], n), limbs.read(ex, st, a[3], m)
    r = x * y
    zr = to_z3(r)
    ex.assume(st, z3.And(zr >= 0, zr < B ** (m + n)))
    limbs.write(ex, st, a[0], m + n, r)
    hi = limbs.read(ex, st, Ptr(a[0].obj, a[0].off + 8 * (m + n - 1)), 1)
    return limb_si(hi)


@contract('__gmpn_tdiv_qr', 'mpn_tdiv_qr')
def _(ex, st, a):
    qp, rp, qxn, np_, nn, dp, dn = a
    nn, dn = nlimbs(ex, st, nn), nlimbs(ex, st, dn)
    x, d = limbs.read(ex, st, np_, nn), limbs.read(ex, st, dp, dn)
    need_pos(ex, st, d)
    # most significant limb of the divisor must be nonzero
    if ex.check(st, [to_z3(d) < B ** (dn - 1)]) != z3.unsat:
        raise MemError("mpn_tdiv_qr divisor not normalised")
    q, r = ex.divmod(st, x, d)
    ex.assume(st, z3.And(to_z3(q) >= 0, to_z3(q) < B ** (nn - dn + 1)))
    limbs.write(ex, st, qp, nn - dn + 1, q)
    limbs.write(ex, st, rp, dn, r)


@contract('__gmpn_cmp', 'mpn_cmp')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    return sgn_si(ex, st, limbs.read(ex, st, a[0], n) - limbs.read(ex, st, a[1], n))


@contract('__gmpn_lshift', 'mpn_lshift')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    k = a[3]
    r, c = carry_out(ex, st, limbs.read(ex, st, a[1], n) * (1 << k), n, maxc=(1 << k) - 1)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(c, (1 << k) - 1)


@contract('__gmpn_rshift', 'mpn_rshift')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    k = a[3]
    q, r = ex.divmod(st, limbs.read(ex, st, a[1], n), P(1 << k))
    limbs.write(ex, st, a[0], n, q)
    return limb_si(r * (1 << (64 - k)))


@contract('__gmpn_copyi', 'mpn_copyi', '__gmpn_copyd')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    limbs.write(ex, st, a[0], n, limbs.read(ex, st, a[1], n))


@contract('__gmpn_zero', 'mpn_zero')
def _(ex, st, a):
    limbs.write(ex, st, a[0], nlimbs(ex, st, a[1]), P(0))


@contract('__gmpn_zero_p', 'mpn_zero_p')
def _(ex, st, a):
    v = limbs.read(ex, st, a[0], nlimbs(ex, st, a[1]))
    return ex.bool_si(st, to_z3(v) == 0, 32)


@contract('__gmpn_neg', 'mpn_neg')
def _(ex, st, a):
    n = nlimbs(ex, st, a[2])
    r, c = carry_out(ex, st, -limbs.read(ex, st, a[1], n), n, True)
    limbs.write(ex, st, a[0], n, r)
    return limb_si(-c, 1)


# ---------------------------------------------------------------- libc / allocation

@contract('malloc', 'default_pbc_malloc', 'pbc_malloc_contract')
def _(ex, st, a):
    n = a[0]
    return st.alloc(n if isinstance(n, int) else None, 'heap', 'malloc@' + (st.frames[-1].fn.name if st.frames else ''))


@contract('calloc')
def _(ex, st, a):
    p = st.alloc(a[0] * a[1], 'heap', 'calloc')
    st.wobj(p.obj).fill = 0
    return p


@contract('free', 'default_pbc_free', 'pbc_free_contract')
def _(ex, st, a):
    p = a[0]
    if p == 0:
        return
    if p is UNDEF:
        raise MemError("free of uninitialised pointer")
    if not isinstance(p, Ptr):
        raise MemError("free of non-heap value")
    o = st.wobj(p.obj)
    if o.freed:
        raise MemError("double free of " + o.name)
    if o.kind != 'heap' or p.off != 0:
        raise MemError("free of non-heap pointer")
    o.freed = True


@contract('realloc', 'default_pbc_realloc', 'pbc_realloc_contract')
def _(ex, st, a):
    p, n = a
    if isinstance(p, Ptr) and hasattr(st.objs[p.obj].ghost, 'w_realloc'):
        return st.objs[p.obj].ghost.w_realloc(ex, st, p, n)
    q = st.alloc(n if isinstance(n, int) else None, 'heap', 'realloc')
    if isinstance(p, Ptr):
        o = st.wobj(p.obj)
        if o.freed:
            raise MemError("realloc of freed object")
        if p.off != 0:
            raise MemError("realloc of interior pointer")
        w = st.wobj(q.obj)
        for off, c in o.cells.items():
            if not isinstance(n, int) or off + c[0] <= n:
                w.cells[off] = c
        w.mpz = dict(o.mpz) if o.mpz else None
        w.segs = list(o.segs) if o.segs is not None else None
        w.fill = None
        o.freed = True
    return q


def hook_fn(name):
    def h(ex, st, p):
        st.wobj(p.obj).cells[0] = (8, FnPtr(name, None))
    return h


C['@pbc_malloc'] = hook_fn('pbc_malloc_contract')
C['@pbc_free'] = hook_fn('pbc_free_contract')
C['@pbc_realloc'] = hook_fn('pbc_realloc_contract')


@contract('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove')
def _memcpy(ex, st, a):
    d, s, n = a[0], a[1], a[2]
    for x in (d, s):
        if isinstance(x, Ptr) and hasattr(st.objs[x.obj].ghost, 'w_copy'):
            return st.objs[x.obj].ghost.w_copy(ex, st, d, s, n)
    if not isinstance(n, int):
        raise Unsupported("symbolic memcpy length")
    if n == 0:
        return d
    so = ex.deref(st, s, n, "memcpy read")
    do = ex.deref(st, d, n, "memcpy write")
    if so.segs is not None or do.segs is not None:
        limbs.write(ex, st, d, n // 8, limbs.read(ex, st, s, n // 8))
        return d
    if not isinstance(s.off, int) or not isinstance(d.off, int):
        raise Unsupported("symbolic memcpy offset")
    src = [(off, c) for off, c in so.cells.items() if off >= s.off and off + c[0] <= s.off + n]
    fill = so.fill
    smpz = [(k, v) for k, v in (so.mpz or {}).items() if s.off <= k < s.off + n]
    w = st.wobj(d.obj)
    for off in [o for o, c in w.cells.items() if o < d.off + n and o + c[0] > d.off]:
        del w.cells[off]
    for off, c in src:
        w.cells[d.off + off - s.off] = c
    if fill == 0 and not src and not smpz:
        for k in range(0, n - 7, 8):
            w.cells[d.off + k] = (8, 0)
        for k in range(n // 8 * 8, n):
            w.cells[d.off + k] = (1, 0)
    if smpz:
        if w.mpz is None:
            w.mpz = {}
        for k, v in smpz:
            w.mpz[d.off + k - s.off] = v
    if so.ghost is not None:
        raise Unsupported("memcpy of abstract element")
    return d


@contract('llvm.memset.p0.i64', 'memset')
def _memset(ex, st, a):
    d, v, n = a[0], a[1], a[2]
    if isinstance(d, Ptr) and hasattr(st.objs[d.obj].ghost, 'w_fill'):
        return st.objs[d.obj].ghost.w_fill(ex, st, d, v, n)
    if not isinstance(n, int):
        raise Unsupported("symbolic memset length")
    if n == 0:
        return d
    o = ex.deref(st, d, n, "memset")
    if v != 0:
        raise Unsupported("memset nonzero")
    if o.segs is not None or (n % 8 == 0 and not o.cells and o.mpz is None and o.kind == 'heap' and isinstance(d.off, int) and d.off % 8 == 0 and d.off > 0):
        limbs.write(ex, st, d, n // 8, P(0))
        return d
    w = st.wobj(d.obj)
    for off in [q for q, c in w.cells.items() if q < d.off + n and q + c[0] > d.off]:
        del w.cells[off]
    if d.off == 0 and n == w.size:
        w.fill = 0
    else:
        for k in range(0, n - 7, 8):
            w.cells[d.off + k] = (8, 0)
        for k in range(n // 8 * 8, n):
            w.cells[d.off + k] = (1, 0)
    return d


def cstr(ex, st, p):
    o = ex.deref(st, p, 1, "string")
    out = bytearray()
    k = p.off
    while True:
        c = o.cells.get(k)
        if c is None:
            if o.fill == 0:
                break
            raise Unsupported("string not concrete")
        if c[1] == 0:
            break
        if not isinstance(c[1], int):
            raise Unsupported("string not concrete")
        out.append(c[1])
        k += 1
    return bytes(out)


@contract('strcmp')
def _(ex, st, a):
    x, y = cstr(ex, st, a[0]), cstr(ex, st, a[1])
    return 0 if x == y else (1 if x > y else (1 << 32) - 1)


@contract('strlen')
def _(ex, st, a):
    return len(cstr(ex, st, a[0]))


@contract('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0')
def _(ex, st, a):
    return None


@contract('llvm.stacksave.p0', 'llvm.stacksave')
def _(ex, st, a):
    return 0


@contract('llvm.stackrestore.p0', 'llvm.stackrestore')
def _(ex, st, a):
    return None


@contract('pbc_die', 'abort', 'exit')
def _(ex, st, a):
    st.data['died'] = True
    return 'die'


@contract('pbc_warn', 'pbc_error', 'pbc_info', 'printf', 'fprintf', 'putchar', 'puts')
def _(ex, st, a):
    return 0


@contract('pbc_mpz_random')
def _(ex, st, a):
    m = mget(ex, st, a[1])
    r = Poly.fresh("rand")
    z = to_z3(r)
    ex.assume(st, z3.And(z >= 0, z < to_z3(m)))
    st.data['rands'] = st.data.get('rands', []) + [r]
    mset(ex, st, a[0], r)


@contract('llvm.is.constant.i64', 'llvm.is.constant.i32')
def is_constant(ex, st, a):
    return 0


@contract('llvm.abs.i32', 'abs')
def _(ex, st, a):
    v = a[0]
    if isinstance(v, int):
        return (1 << 32) - v if v >> 31 else v
    p = ex.as_s(st, v, 32)
    outs = []
    for s, neg in ex.branch(st, to_z3(p) < 0):
        outs.append((s, SI(32, -p if neg else p, 0, 1 << 31)))
    return outs


@contract('labs', 'llvm.abs.i64')
def _(ex, st, a):
    v = a[0]
    if isinstance(v, int):
        return (1 << 64) - v if v >> 63 else v
    p = ex.as_s(st, v, 64)
    outs = []
    for s, neg in ex.branch(st, to_z3(p) < 0):
        outs.append((s, SI(64, -p if neg else p, 0, 1 << 63)))
    return outs
