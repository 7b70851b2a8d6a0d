"""Limb vectors: an object holds segments (start limb, length, value) with value
a Poly in [0, 2^(64*length)).  Vector lengths are concrete; contents symbolic."""
import z3
from .poly import Poly, P
from .exec import Ptr, SI, UNDEF, MemError, to_z3
from .ir import Unsupported

B = 1 << 64


def to_limbmode(st, o):
    """convert plain 8-byte integer cells to segments"""
    if o.segs is None:
        o = st.wobj(o.id)
        o.segs = []
        if o.fill == 0 and isinstance(o.size, int):
            occ = set()
            for off, (n, v) in o.cells.items():
                for k in range(off // 8, (off + n + 7) // 8):
                    occ.add(k)
            for k in range(o.size // 8):
                if k not in occ:
                    o.segs.append((k, 1, P(0)))
        for off, (n, v) in list(o.cells.items()):
            if n == 8 and off % 8 == 0 and isinstance(v, int):
                o.segs.append((off // 8, 1, P(v)))
                del o.cells[off]
            elif n == 8 and off % 8 == 0 and isinstance(v, SI):
                o.segs.append((off // 8, 1, v.p))
                del o.cells[off]
            elif v is UNDEF:
                del o.cells[off]
            else:
                raise Unsupported("mixed limb object")
        o.segs.sort(key=lambda s: s[0])
    return st.wobj(o.id)


def lim(ex, st, ptr, n, what):
    if not isinstance(n, int):
        raise Unsupported("symbolic limb count")
    o = ex.deref(st, ptr, 8 * n, what)
    if not isinstance(ptr.off, int) or ptr.off % 8:
        raise Unsupported("limb alignment")
    return to_limbmode(st, o), ptr.off // 8


def divides(p, m):
    return all(isinstance(c, int) and c % m == 0 for c in p.t.values())


def expand(al, v):
    """replace multipliers by the expressions they equal modulo 2^64"""
    for _ in range(8):
        hit = [x for x in v.vars() if x in al]
        if not hit:
            return v
        for x in hit:
            v = v.subst(x, al[x])
    return v


def small_multiplier(ex, st, v):
    """a one-word multiplier given by a nonlinear expression: a fresh word equal to it modulo 2^64"""
    from .exec import SI
    if not isinstance(v, SI) or all(sum(e for _, e in m) < 2 for m in v.p.t):
        return None
    t = st.data.setdefault('multipliers', {})
    k = v.p.key()
    if k not in t:
        u = Poly.fresh("u")
        ex.assume(st, z3.And(to_z3(u) >= 0, to_z3(u) < B))
        st.data['alias'] = dict(st.data.get('alias', {}))
        (x,) = u.vars()
        st.data['alias'][x] = v.p
        t[k] = u
    return t[k]


def split(ex, st, v, k, n):
    """split n-limb value v at limb k -> (lo, hi)"""
    m = B ** k
    if v.is_const():
        c = int(v.const_value())
        return P(c % m), P(c // m)
    from .gmp import inormal
    v = inormal(st, v)
    if divides(v, m):
        return P(0), Poly({a: c // m for a, c in v.t.items()})
    t = st.data.setdefault('splits', {})
    key = (v.key(), k)
    if key in t:
        return t[key]
    al = st.data.get('alias')
    if al and k == 1 and divides(inormal(st, expand(al, v)), m):
        # the low limb is zero: v = hi * B exactly (kept as a fact, v itself stays small)
        hi = Poly.fresh("sh")
        zh = to_z3(hi)
        ex.assume(st, z3.And(zh * m == to_z3(v), zh >= 0, zh < B ** (n - k)))
        st.data['montfacts'] = dict(st.data.get('montfacts', {}))
        st.data['montfacts'][('sh', hi.key())] = (hi, 1, v)
        t[key] = (P(0), hi)
        return t[key]
    hi = Poly.fresh("hi")
    lo = v - hi * m
    zl, zh = to_z3(lo), to_z3(hi)
    ex.assume(st, z3.And(zl >= 0, zl < m, zh >= 0, zh < B ** (n - k)))
    t[key] = (lo, hi)
    return lo, hi


def cut(ex, st, o, s):
    """make s a segment boundary of object o"""
    for i, (a, n, v) in enumerate(o.segs):
        if a < s < a + n:
            lo, hi = split(ex, st, v, s - a, n)
            o.segs[i:i + 1] = [(a, s - a, lo), (s, n - (s - a), hi)]
            return


def read(ex, st, ptr, n):
    if n == 0:
        return P(0)
    o, s = lim(ex, st, ptr, n, "read of limbs")
    cut(ex, st, o, s)
    cut(ex, st, o, s + n)
    tot = P(0)
    pos = s
    for a, m, v in o.segs:
        if a >= s and a + m <= s + n:
            if a != pos:
                raise MemError("uninitialised limbs of %s read" % o.name)
            tot = tot + v * (B ** (a - s))
            pos = a + m
    if pos != s + n:
        raise MemError("uninitialised limbs of %s read" % o.name)
    return tot


def write(ex, st, ptr, n, v):
    if n == 0:
        return
    o, s = lim(ex, st, ptr, n, "write of limbs")
    cut(ex, st, o, s)
    cut(ex, st, o, s + n)
    o.segs = [g for g in o.segs if g[0] + g[1] <= s or g[0] >= s + n]
    o.segs.append((s, n, v))
    o.segs.sort(key=lambda g: g[0])


def load_limb(ex, st, ptr):
    try:
        p = read(ex, st, ptr, 1)
    except MemError as e:
        if 'uninit' in str(e):
            return UNDEF
        raise
    if p.is_const():
        return int(p.const_value())
    return SI(64, p, 0, B - 1)


def store_limb(ex, st, ptr, v):
    if v is UNDEF:
        return
    write(ex, st, ptr, 1, ex.as_u(st, v, 64))
