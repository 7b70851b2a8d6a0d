"""Bounded conformance scripts: powers, roots, conversions (C05-C08)"""
import itertools, random
from .conf import Case, ANY
from .oracle import *
from .conf_arith import *


def find_curve(p, rnd, want=None, impl='default'):
    """curve over F_p (p small) with its exact order and all points; want(order) filters"""
    while True:
        a, b = rnd.randrange(p), rnd.randrange(p)
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            continue
        E = Curve(Fp(p, impl), a, b, 1)
        pts = E.points_brute()
        n = len(pts)
        if want is None or want(n):
            E.order = n
            return E, pts


def factor(n):
    f, d = {}, 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def field_zoo(rnd, big, small=True):
    """reference rings with declarations, a spread of representations"""
    out = []
    for p in (next_prime(B64), prev_prime(B64 ** 2), next_prime((1 << 159) + 99), prev_prime(B64 ** 3)):
        for impl in ('naive', 'fast', 'faster', 'mont'):
            out.append(Fp(p, impl))
    for p in (3, 5, 7, 13, 101, 65537, prev_prime(B64)):
        out.append(Fp(p, 'naive'))
        out.append(Fp(p, 'default'))
    for p in (7, 11, 103, next_prime(B64, p3), prev_prime(1 << 160, p3)):
        out.append(Quad(Fp(p, 'default'), None))
    for p in (5, 7, 13, 17, 101, next_prime(B64), prev_prime(1 << 160)):
        F = Fp(p, 'default')
        out.append(Quad(F, F.nqr()))
    for p, n in ((3, 2), (3, 5), (5, 3), (7, 2), (7, 4), (11, 3), (13, 6), (101, 3), (next_prime(B64), 3), (prev_prime(1 << 160), 5), (prev_prime(1 << 160), 3)):
        out.append(PolyModO(Fp(p, 'default'), irreducible(p, n, random.Random(p * 100 + n))))
    K = Quad(Fp(7, 'naive'), None, 'K')
    for d in ((1, 1), (2, 1), (1, 2), (0, 1), (3, 1), (4, 3)):
        if not K.is_sqr(d):
            out.append(Quad(K, d, 'T'))
            break
    return out


def desc(S):
    b = getattr(S, 'base', None)
    if isinstance(S, Fp):
        return "Fp %s p=%d" % (S.impl, S.p)
    if isinstance(S, Quad):
        return "%s(%s)" % (S.kind, desc(b))
    if isinstance(S, PolyModO):
        return "deg %d over %s" % (S.n, desc(b))
    return S.name


def zoo_vals(S, rnd, n=4):
    e = S.edges()
    v = [S.zero, S.one, S.neg(S.one)] + rnd.sample(e, min(3, len(e))) + [S.rnd(rnd) for _ in range(n)]
    return list(dict.fromkeys(v))


def exps(order, rnd):
    es = list(range(0, 12)) + [15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 1023, 1024, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, 1 << 64,
                               (1 << 64) + 1, order - 2, order - 1, order, order + 1, 2 * order + 3, order * order + 7]
    for b in (5, 6, 8, 9, 24, 25, 79, 80, 81, 160, 241, 300, 513):
        es.append(rnd.getrandbits(b))
    return [e for e in es if e >= 0]


class Mul:
    """uniform multiplicative view of rings and curves"""

    def __init__(self, S):
        self.S = S
        self.is_curve = isinstance(S, Curve)
        self.one = None if self.is_curve else S.one

    def pw(self, a, n): return self.S.mul(n, a) if self.is_curve else self.S.pw(a, n)
    def mul(self, a, b): return self.S.add(a, b) if self.is_curve else self.S.mul(a, b)


def c05(rnd, big):
    out = []
    zoo = field_zoo(rnd, big)
    groups = [(S, zoo_vals(S, rnd, 3), S.order) for S in zoo]
    for p in (5, 7, 11, 13, 31, 103):
        E, pts = find_curve(p, rnd)
        groups.append((E, [None] + rnd.sample(pts, min(5, len(pts))), E.order))
    for S, vals, order in groups:
        M = Mul(S)
        es = exps(order, rnd)
        zr = order if is_prime(order) and order > 2 else 1009
        lab = "E(F_%d)" % S.F.p if M.is_curve else desc(S)

        def new(tag):
            c = Case("pow %s %s" % (tag, lab))
            with_base(S)(c)
            c("el %s a b d r" % S.name, "fp Zr default %d" % zr, "el Zr x y z")
            return c
        c = new('single')
        for a in vals:
            for n in (es if len(vals) < 9 or big else rnd.sample(es, 24)):
                S.set(c, 'a', a)
                w = S.show(M.pw(a, n))
                c("powz r a %d" % n).q("val r a", w + " " + S.show(a))
                if rnd.random() < .3:
                    c("powz a a %d" % n).q("val a", w)
            n = rnd.choice(es) % zr
            S.set(c, 'a', a)
            c("setz x %d" % n, "powzn r a x").q("val r a x", "%s %s %d" % (S.show(M.pw(a, n)), S.show(a), n))
            c("set0 x", "powzn r a x").q("val r", S.show(M.one if not M.is_curve else None))
            c("setz x %d" % n, "powzn a a x").q("val a", S.show(M.pw(a, n)))
        out.append(c)
        c = new('products')
        for k in range(14 if not big else 60):
            a, b, d = (rnd.choice(vals) for _ in range(3))
            n1, n2, n3 = (rnd.choice(es) for _ in range(3))
            if k < 3:
                n1, n2, n3 = [(0, 0, 0), (0, 5, 0), (9, 0, 1)][k]
            for e, v in (('a', a), ('b', b), ('d', d)):
                S.set(c, e, v)
            w2 = M.mul(M.pw(a, n1), M.pw(b, n2))
            c("pow2 r a %d b %d" % (n1, n2)).q("val r a b", " ".join(S.show(x) for x in (w2, a, b)))
            w3 = M.mul(w2, M.pw(d, n3))
            c("pow3 r a %d b %d d %d" % (n1, n2, n3)).q("val r a b d", " ".join(S.show(x) for x in (w3, a, b, d)))
            m = [n % zr for n in (n1, n2, n3)]
            c("setz x %d" % m[0], "setz y %d" % m[1], "setz z %d" % m[2])
            w2 = M.mul(M.pw(a, m[0]), M.pw(b, m[1]))
            w3 = M.mul(w2, M.pw(d, m[2]))
            c("pow2zn r a x b y").q("val r x y", S.show(w2) + " %d %d" % (m[0], m[1]))
            c("pow3zn r a x b y d z").q("val r", S.show(w3))
            t = rnd.randrange(4)
            if t == 0:
                c("pow2zn a a x b y").q("val a", S.show(w2))
            elif t == 1:
                c("pow2zn b a x b y").q("val b a", S.show(w2) + " " + S.show(a))
            elif t == 2:
                c("pow3zn d a x b y d z").q("val d", S.show(w3))
            else:
                c("pow3zn a a x b y d z").q("val a b", S.show(w3) + " " + S.show(b))
        out.append(c)
        c = new('tables')
        for i, a in enumerate(vals):
            S.set(c, 'a', a)
            c("ppinit t%d a" % i)
            if rnd.random() < .5:
                c("set0 a")           # the table does not depend on the element afterwards
            for n in rnd.sample(es, 12 if not big else 30) + [0, 1, order - 1, order, order + 1, 31, 32, 33]:
                c("pppow r t%d %d" % (i, n)).q("val r", S.show(M.pw(a, n)))
            n = rnd.choice(es) % zr
            c("setz x %d" % n, "pppowzn r t%d x" % i).q("val r x", S.show(M.pw(a, n)) + " %d" % n)
            c("ppclear t%d" % i)
        out.append(c)
        if M.is_curve:
            c = new('multiples')
            for a in vals:
                for n in (0, 1, 2, 3, 7, order - 1, order, order + 5, 1 << 20):
                    S.set(c, 'a', a)
                    c("mulz r a %d" % n).q("val r a", S.show(M.pw(a, n)) + " " + S.show(a))
                    c("mulsi r a %d" % n).q("val r a", S.show(M.pw(a, n)) + " " + S.show(a))
                    c("setz x %d" % (n % zr), "mulzn r a x").q("val r", S.show(M.pw(a, n % zr)))
                    c("mulsi a a %d" % n).q("val a", S.show(M.pw(a, n)))
                for n in (1, 2, 5):
                    S.set(c, 'a', a)
                    c("mulsi r a %d" % -n).q("val r a", S.show(M.pw(a, n * order - n)) + " " + S.show(a))
            out.append(c)
    # large fields and exponents: many rows of a table, every window width
    for bits in (1400, 2700, 5300):
        p = prev_prime(1 << bits) if bits < 2000 else (1 << bits) - 2 * rnd.getrandbits(64) - 1     # powers need no inverse: any odd modulus
        c = Case("powers in a field of %d bits" % bits)
        c("fp F default %d" % p, "el F a r")
        a = rnd.randrange(2, p)
        c("setz a %d" % a, "ppinit t a")
        for n in [0, 1, (1 << bits) - 1 - 2 * (bits // 3), p - 2, p - 1, 1 << (bits - 1), (1 << (bits - 1)) | 1, rnd.getrandbits(bits - 1), rnd.getrandbits(bits // 2), 1 << 1300, p, p + 1, p * p]:
            w = pow(a, n, p)
            c("pppow r t %d" % n).q("val r", str(w)).q("val a", str(a))
            c("powz r a %d" % n).q("val r", str(w))
            c("pow2 r a %d a %d" % (n, n)).q("val r", str(w * w % p))
        for n in (rnd.getrandbits(3530) | 1 << 3529, rnd.getrandbits(9100) | 1 << 9099, 1 << 9070):
            c("powz r a %d" % n).q("val r", str(pow(a, n, p)))
        c("ppclear t")
        out.append(c)
    return out


# ---------------------------------------------------------------- C06

def c06(rnd, big):
    out = []
    zoo = field_zoo(rnd, big)
    # high two-adicity and small fields exhaustively
    for p in (3, 5, 7, 11, 13, 17, 41, 97, 193, 257, 769, 12289, 65537, 3221225473, 2013265921, 18446744069414584321,
              next_prime(1 << 100, lambda p: p % 8 == 1), next_prime(1 << 130, lambda p: p % 8 == 5), next_prime(1 << 200, lambda p: p % 4 == 3)):
        for impl in (('naive', 'default', 'faster', 'fast', 'mont') if p > B64 else ('naive',)):
            zoo.append(Fp(p, impl))
    for S in zoo:
        lab = desc(S)
        vals = zoo_vals(S, rnd, 8)
        if S.order <= 130:
            vals = all_elems(S)
        else:
            vals += [S.scal(k, S.one) for k in (2, 3, 5, 6, 7)]
            vals += [S.mul(v, v) for v in vals]
        if isinstance(S, Quad):
            # elements of the base field, purely imaginary ones
            b = S.base
            sub = [b.one, b.neg(b.one), b.rnd(rnd), b.rnd(rnd), b.rnd(rnd)]
            vals += [(x, b.zero) for x in sub] + [(b.zero, x) for x in sub]
            vals += [S.mul(v, v) for v in vals[-10:]]
        if isinstance(S, PolyModO):
            b = S.base
            vals += [S.scal(1, (b.rnd(rnd),) + (b.zero,) * (S.n - 1)) for _ in range(4)]
            vals += [S.mul(v, v) for v in vals[-4:]]
        vals = list(dict.fromkeys(vals))
        if S.order > 1 << 400 and not big:
            vals = vals[:3] + rnd.sample(vals[3:], min(7, len(vals) - 3))
        c = Case("roots " + lab)
        with_base(S)(c)
        c("el %s a r" % S.name)
        for v in vals:
            S.set(c, 'a', v)
            q = S.is_sqr(v)
            c.q("issqr a", "%d" % q).q("val a", S.show(v))
            if q:
                for op in ('sqrt', 'tonelli'):
                    if op == 'tonelli' and not isinstance(S, Fp):
                        continue
                    if rnd.random() < .5:
                        c("set0 r")
                    c("%s r a" % op, "square r r").q("val r a", S.show(v) + " " + S.show(v))
                    c("set r a", "%s r r" % op, "square r r").q("val r", S.show(v))
        out.append(c)
    return out


def all_elems(S):
    if isinstance(S, Fp):
        return list(range(S.p))
    import itertools
    return [tuple(t) for t in itertools.product(all_elems(S.base), repeat=S.n)]


# ---------------------------------------------------------------- C07

def c07(rnd, big):
    out = []
    zoo = field_zoo(rnd, big)
    for p in (256 + 1, 65521, next_prime(1 << 24), next_prime(1 << 32), prev_prime(1 << 72), prev_prime(1 << 128), next_prime(1 << 127), next_prime(1 << 120)):
        for impl in (('naive', 'fast', 'faster', 'mont') if p > B64 else ('naive', 'default')):
            zoo.append(Fp(p, impl))
    for S in zoo:
        lab = desc(S)
        vals = zoo_vals(S, rnd, 8)
        n = S.blen()
        c = Case("bytes " + lab)
        with_base(S)(c)
        c("el %s a r t" % S.name)
        for v in vals:
            S.set(c, 'a', v)
            h = S.bytes(v).hex()
            c.q("len a", str(n)).q("tobytes a", "%d %d %s" % (n, n, h)).q("val a", S.show(v))
            if rnd.random() < .5:
                S.set(c, 'r', rnd.choice(vals))
            c.q("frombytes r " + h, str(n)).q("val r", S.show(v)).q("cmp r a", "0")
            c.q("frombytes a " + h, str(n)).q("val a", S.show(v))
        # equal elements reached differently encode equally
        for _ in range(6):
            x, y = rnd.choice(vals), rnd.choice(vals)
            S.set(c, 'a', x)
            S.set(c, 'r', y)
            c("sub_ t a r", "add t t r").q("tobytes t", "%d %d %s" % (n, n, S.bytes(x).hex()))
        # arbitrary bytes
        bl = S
        while not isinstance(bl, Fp):
            bl = bl.base
        p = bl.p
        k = bl.blen()
        top = 1 << (8 * k)
        pool = [0, 1, p - 1, p, p + 1, 2 * p, 2 * p - 1, 2 * p + 1, 3 * p, top - 1, top - 2, top // 2, (top - 1) // p * p, (top - 1) // p * p - 1, top >> 8]
        pool = [x for x in pool if 0 <= x < top]
        m = n // k
        for _ in range(24 if not big else 120):
            b = b''.join((rnd.choice(pool) if rnd.random() < .7 else rnd.randrange(top)).to_bytes(k, 'big') for _ in range(m))
            v = S.unbytes(b)
            y = rnd.choice(vals)
            S.set(c, 't', y)
            c.q("frombytes a " + b.hex(), str(n))
            c.q("is0 a", "%d" % (v == S.zero)).q("is1 a", "%d" % (v == S.one))
            c.q("val a", S.show(v)).q("tobytes a", "%d %d %s" % (n, n, S.bytes(v).hex()))
            c("add r a t").q("val r", S.show(S.add(v, y)))
            c("mul r a t").q("val r", S.show(S.mul(v, y)))
            c("sub_ r t a").q("val r", S.show(S.sub(y, v)))
            S.set(c, 'r', v)
            c.q("cmp r a", "0").q("cmp a r", "0")
            if v != S.zero:
                c("invert r a").q("val r", S.show(S.inv(v)))
        out.append(c)
        c = Case("integers " + lab)
        with_base(S)(c)
        c("el %s a r" % S.name)
        for z in [0, 1, -1, p - 1, p, p + 1, -p, 1 - p, -p - 1, 2 * p, p * p, p * p - 1, -p * p + 1, 1 << 63, (1 << 64) - 1, 1 << 64, -(1 << 64), rnd.getrandbits(600), -rnd.getrandbits(600)]:
            S.set(c, 'a', rnd.choice(vals))
            w = S.scal(z, S.one)
            c("setz a %d" % z).q("val a", S.show(w)).q("is0 a", "%d" % (w == S.zero)).q("is1 a", "%d" % (w == S.one))
            if isinstance(S, Fp):
                c.q("toz a", str(z % p))
        for z in [0, 1, -1, 2, -2, 1000, -1000, (1 << 31), -(1 << 31), (1 << 63) - 1, -(1 << 63) + 1]:
            S.set(c, 'a', rnd.choice(vals))
            w = S.scal(z, S.one)
            c("setsi a %d" % z).q("val a", S.show(w))
            c("set0 r", "set1 r", "mulsi r r %d" % z).q("cmp a r", "0")
        out.append(c)
    # polynomials: two bytes of length, then the coefficients
    for p, n in ((5, 3), (101, 20), (65521, 255), (7, 256), (257, 257), (3, 700), (101, 4099)):
        F = Fp(p, 'naive')
        k = F.blen()
        c = Case("bytes of polynomials of %d coefficients over F_%d" % (n, p))
        F.declare(c)
        c("poly R F", "el R a r", "el F k")
        for m in sorted({n, n - 1, 0, 1}):
            v = [rnd.randrange(p) for _ in range(m - 1)] + [rnd.randrange(1, p)] * (m > 0)
            c("set0 a")
            for i, x in enumerate(v):
                if x and (i > m - 6 or rnd.random() < 200. / n):
                    c("setz k %d" % x, "polyset a k %d" % i)
                else:
                    v[i] = 0
            if m:
                assert v[-1]
            h = (m.to_bytes(2, 'little') + b''.join(x.to_bytes(k, 'big') for x in v)).hex()
            c.q("tobytes a", "%d %d %s" % (2 + k * m, 2 + k * m, h))
            c("set1 r").q("frombytes r " + h, str(2 + k * m)).q("cmp r a", "0").q("polydeg r", str(m - 1))
        out.append(c)
    return out


# ---------------------------------------------------------------- C08

def c08(rnd, big):
    out = []
    cs = []
    for p in (5, 7, 11, 13, 257, 509):
        for _ in range(3 if not big else 12):
            E, pts = find_curve(p, rnd)
            cs.append((E, pts if len(pts) < 40 else [None] + rnd.sample(pts, 24)))
    for p in (next_prime(B64, p3), prev_prime(B64 ** 2), next_prime(1 << 159), prev_prime(1 << 168), next_prime(1 << 192)):
        F = Fp(p, 'default')
        for a, b in ((1, 0), (0, 3), (F.rnd(rnd), F.rnd(rnd))):
            E = Curve(F, a, b, next_prime(1 << 60))
            pts = big_points(rnd, F, a, b, 8) + [None]
            if b == 0:
                pts.append((0, 0))
            cs.append((E, pts))
    # curves over extension fields with ordinates on the axes
    F13 = Fp(13, 'default')
    for K in (Quad(Fp(7, 'naive'), None), Quad(Fp(19, 'default'), None), Quad(F13, F13.nqr()), PolyModO(Fp(5, 'default'), irreducible(5, 3, random.Random(503))),
              PolyModO(Fp(7, 'naive'), irreducible(7, 2, random.Random(702)))):
        els = list(itertools.product(range(K.base.p), repeat=K.n))
        sq = {}
        for y in els:
            sq.setdefault(K.mul(y, y), []).append(y)
        for _ in range(2 if not big else 8):
            a, b = rnd.choice(els), rnd.choice(els)
            d = K.add(K.scal(4, K.mul(a, K.mul(a, a))), K.scal(27, K.mul(b, b)))
            if d == K.zero:
                continue
            E = Curve(K, a, b, 1)
            pts = [(x, y) for x in els for y in sq.get(E.rhs(x), ())]
            E.order = len(pts) + 1
            ax = [P_ for P_ in pts if K.zero[0] in P_[1]]
            cs.append((E, [None] + rnd.sample(ax, min(len(ax), 24)) + rnd.sample(pts, min(len(pts), 12))))
    # an extension-field curve
    K = Quad(Fp(11, 'naive'), None, 'K')
    E = Curve(K, (1, 2), (3, 4), 1)
    els = [(x, y) for x in range(11) for y in range(11)]
    sq = {}
    for y in els:
        sq.setdefault(K.mul(y, y), []).append(y)
    pts = [None] + [(x, y) for x in els for y in sq.get(E.rhs(x), ())]
    E.order = len(pts)
    cs.append((E, [None] + rnd.sample(pts, 30)))
    for E, pts in cs:
        F = E.F
        lab = "a=%s b=%s over %s" % (E.a, E.b, desc(F))
        c = Case("point bytes " + lab)
        with_base(E)(c)
        c("el %s P Q R" % E.name)
        n = F.blen()
        seen = {}

        def note(P, seen=seen):
            def f(line):
                t = line.split()
                if len(t) != 3 or t[0] != t[1]:
                    return "announced and written lengths differ"
                if int(t[0]) * 2 != len(t[2]) and not (t[2] == '-' and t[0] == '0'):
                    return "length"
                if t[2] in seen and seen[t[2]] != P:
                    return "same encoding as another point"
                seen[t[2]] = P
                return True
            return f
        encs = []
        for P in pts:
            E.set(c, 'P', P)
            # full encoding of a finite point: x then y
            if P is None:
                c.q("tobytes P", note(P))
            else:
                h = (F.bytes(P[0]) + F.bytes(P[1])).hex()
                c.q("tobytes P", "%d %d %s" % (2 * n, 2 * n, h))
                E.set(c, 'R', rnd.choice(pts))
                c.q("frombytes R " + h, str(2 * n)).q("val R", E.show(P)).q("cmp R P", "0")
            c.q("val P", E.show(P))
            c("rt P R").q("val R", E.show(P))
            if P is not None:
                c.q("tobytesc P", lambda l, n=n: True if l.split()[0] == l.split()[1] == str(n + 1) else "length")
                E.set(c, 'R', rnd.choice(pts))
                c("rtc P R").q("val R P", E.show(P) + " " + E.show(P))
                c.q("tobytesx P", "%d %d %s" % (n, n, F.bytes(P[0]).hex()))
                E.set(c, 'R', rnd.choice(pts))
                c("rtx P R").q("val R", lambda l, P=P, E=E: True if l.strip() in (E.show(P), E.show(E.neg(P))) else "not the point up to sign")
        # arbitrary bytes into the full decoder
        for _ in range(20 if not big else 100):
            k = rnd.randrange(4)
            if k == 0:
                P = rnd.choice([x for x in pts if x] or [(F.zero, F.zero)])
                b = bytearray(F.bytes(P[0]) + F.bytes(P[1]))
                i = rnd.randrange(len(b))
                b[i] ^= 1 << rnd.randrange(8)
                b = bytes(b)
            elif k == 1:
                b = bytes(2 * n)
            elif k == 2:
                b = bytes([255] * (2 * n))
            else:
                b = bytes(rnd.randrange(256) for _ in range(2 * n))
            x, y = F.unbytes(b[:n]), F.unbytes(b[n:])
            w = (x, y) if E.on((x, y)) else None
            E.set(c, 'R', rnd.choice(pts))
            # the decoder either accepts a point of the curve or gives the identity
            c.q("frombytes R " + b.hex(), str(2 * n))
            c.q("val R", lambda l, w=w, E=E: True if l.strip() in (E.show(w), "O") else "off the curve")
            c("sub_ Q R R").q("is0 Q", "1")
        out.append(c)
    # subgroup membership of hashed and random points
    for _ in range(8 if not big else 30):
        p = rnd.choice([103, 251, 499, 1009])
        E, pts = find_curve(p, rnd, lambda n: max(factor(n)) > 10 and factor(n)[max(factor(n))] == 1)
        r = max(factor(E.order))
        h = E.order // r
        E.order, E.cofac = r, h
        c = Case("subgroup points a=%d b=%d p=%d r=%d h=%d" % (E.a, E.b, p, r, h))
        with_base(E)(c)
        c("seed %d" % rnd.randrange(1000), "el %s P Q" % E.name)

        def sub(l, E=E, r=r):
            l = l.strip()
            if l == "O":
                return True
            x, y = (int(t) for t in l[1:-1].split())
            if not E.on((x, y)):
                return "off the curve"
            if E.mul(r, (x, y)) is not None:
                return "not in the subgroup of order r"
            return True
        for i in range(20):
            c("random P").q("val P", sub)
        out.append(c)
    # the same with hashing, in fields too large for the search of an ordinate to cycle (C14 records that finding); order p + 1
    for lo in (1 << 30, 1 << 45, 1 << 63, 1 << 64, 1 << 90):
        r = next_prime(lo, lambda q: True)
        h = 6
        while not (is_prime(h * r - 1)):
            h += 6
        p = h * r - 1
        F = Fp(p, 'default')
        E = Curve(F, 0, rnd.randrange(1, p), r)
        E.cofac = h
        c = Case("subgroup points b=%d p=%d r=%d h=%d" % (E.b, p, r, h))
        with_base(E)(c)
        c("seed %d" % rnd.randrange(1000), "el %s P Q" % E.name)
        for i in range(20):
            c("random P").q("val P", lambda l, E=E, r=r: sub(l, E, r))
            c("hash P %s" % bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 5, 20, 40]))).hex()).q("val P", lambda l, E=E, r=r: sub(l, E, r))
        out.append(c)
    # lengths announced for the groups of a pairing are those of their elements
    from . import params
    for t in params.listed(params.D)[:2] + params.listed(params.G)[:1] + params.listed(params.F_)[:1] + params.listed(params.E_)[:1] + [params.type_a(6)[1][3], params.type_a1((7,))[0][3]]:
        c = Case("announced lengths, " + t[:50].replace('\n', ' '))
        c("seed 5").q("pairing P " + t.encode().hex(), "0")
        c("pel P G1 a", "pel P G2 b", "random a", "random b").q("plenchk P a b", "1 1 1 1 1 1")
        out.append(c)
    return out
