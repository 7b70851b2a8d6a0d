"""Bounded conformance scripts: arithmetic (C01-C06)"""
import random
from .conf import Case, ANY
from .oracle import *


def ring_ops(S, vals, label, rnd, npairs=60, scalars=(), setup=None, field=True, cubic=False, ops=None):
    """every arithmetic call on value pairs, with aliasing, against the reference ring S"""
    cases = []
    pairs = [(a, b) for a in vals for b in vals]
    if len(pairs) > npairs:
        keep = [(a, a) for a in vals[:10]]
        pairs = keep + rnd.sample(pairs, npairs - len(keep))

    def new(tag):
        c = Case("%s %s" % (label, tag))
        (setup or with_base(S))(c)
        c("el %s a b r" % S.name)
        return c
    bin_ = [('add', S.add), ('sub_', S.sub), ('mul', S.mul)]
    if field:
        bin_.append(('div', lambda x, y: S.mul(x, S.inv(y))))
    for op, f in bin_:
        if ops and op not in ops: continue
        c = new(op)
        for x, y in pairs:
            if op == 'div' and y == S.zero:
                continue
            S.set(c, 'a', x)
            S.set(c, 'b', y)
            w = S.show(f(x, y))
            k = rnd.randrange(4)
            if k == 0:
                c("%s r a b" % op)
                c.q("val r a b", w + " " + S.show(x) + " " + S.show(y))
            elif k == 1:
                c("%s a a b" % op)
                c.q("val a b", w + " " + S.show(y))
            elif k == 2:
                c("%s b a b" % op)
                c.q("val b a", w + " " + S.show(x))
            else:
                c("set r b" if rnd.random() < .5 else "set0 r", "%s r a b" % op)
                c.q("val r", w)
        for x in vals[:24]:
            if op == 'div' and x == S.zero:
                continue
            S.set(c, 'a', x)
            c("%s a a a" % op)
            c.q("val a", S.show(f(x, x)))
            S.set(c, 'a', x)
            c("%s r a a" % op)
            c.q("val r a", S.show(f(x, x)) + " " + S.show(x))
        cases.append(c)
    half = (S.char + 1) // 2 if S.char and S.char % 2 else None
    un = [('square', lambda x: S.mul(x, x)), ('double', lambda x: S.add(x, x)), ('neg', S.neg), ('set', lambda x: x)]
    if cubic:
        un.append(('cubic', lambda x: S.mul(x, S.mul(x, x))))
    if half and field:
        un.append(('halve', lambda x: S.scal(half, x)))
    if field:
        un.append(('invert', S.inv))
    c = new('unary')
    for op, f in un:
        if ops and op not in ops: continue
        for x in vals:
            if op == 'invert' and x == S.zero:
                continue
            S.set(c, 'a', x)
            if rnd.random() < .5:
                S.set(c, 'r', vals[rnd.randrange(len(vals))])
            else:
                c("set0 r")
            c("%s r a" % op)
            c.q("val r a", S.show(f(x)) + " " + S.show(x))
            c("%s a a" % op)
            c.q("val a", S.show(f(x)))
    cases.append(c)
    c = new('predicates')
    c("set0 a").q("val a", S.show(S.zero))
    c("set1 a").q("val a", S.show(S.one))
    for x in vals:
        S.set(c, 'a', x)
        c.q("is0 a", "%d" % (x == S.zero)).q("is1 a", "%d" % (x == S.one))
    for x, y in pairs:
        S.set(c, 'a', x)
        S.set(c, 'b', y)
        c.q("cmp a b", "%d" % (x != y))
        if rnd.random() < .3:
            # reach the same value through arithmetic
            c("sub_ r a b", "add r r b")
            c.q("cmp r a", "0")
            c("sub_ r r a").q("is0 r", "1").q("cmp r a", "%d" % (x != S.zero)).q("cmp a r", "%d" % (x != S.zero))
    cases.append(c)
    c = new('scalars')
    sis = [0, 1, -1, 2, -2, 3, 7, -7, 255, 65537, (1 << 31) - 1, -(1 << 31), (1 << 62) + 12345, -(1 << 62)]
    zs = [0, 1, -1, 2, -2, 1 << 63, (1 << 64) - 1, 1 << 64, -(1 << 64), (1 << 200) + 987654321, -(1 << 130) - 5] + list(scalars)
    for k in sis:
        c("setsi a %d" % k)
        c.q("val a", S.show(S.scal(k, S.one)))
        for x in rnd.sample(vals, min(3, len(vals))):
            S.set(c, 'a', x)
            c("mulsi r a %d" % k)
            c.q("val r", S.show(S.scal(k, x)))
            if k >= 0:
                c("addui r a %d" % k)
                c.q("val r a", S.show(S.add(S.scal(k, S.one), x)) + " " + S.show(x))
            c("mulsi a a %d" % k).q("val a", S.show(S.scal(k, x)))
    for k in zs:
        c("setz a %d" % k)
        c.q("val a", S.show(S.scal(k, S.one)))
        for x in rnd.sample(vals, min(3, len(vals))):
            S.set(c, 'a', x)
            c("mulz r a %d" % k)
            c.q("val r a", S.show(S.scal(k, x)) + " " + S.show(x))
            c("mulz a a %d" % k).q("val a", S.show(S.scal(k, x)))
    cases.append(c)
    return cases


def c01(rnd, big):
    out = []
    for p in P_BIG + P_SMALL:
        for impl in (IMPLS_BIG if p > B64 else IMPLS_SMALL):
            S = Fp(p, impl)
            vals = S.edges() + [S.rnd(rnd) for _ in range(6 if not big else 30)]
            vals = sorted(set(vals))
            out += ring_ops(S, vals, "Fp %s p=%d" % (impl, p), rnd, npairs=60 if not big else 500, scalars=(p, p - 1, 2 * p, -p, p + 1, -p - 1, p * p))
    return out


def p3(p): return p % 4 == 3


def quad_fields(rnd, big):
    fs = []
    ps = [next_prime(B64, p3), prev_prime(B64 ** 2, p3), next_prime(1 << 159, p3), 7, 11, 19, 65543 if is_prime(65543) else 7]
    for p in ps:
        for impl in (['mont', 'faster', 'naive'] if p > B64 else ['naive']):
            F = Fp(p, impl)
            fs.append(Quad(F, None))
            fs.append(Quad(F, F.nqr()))
    for p in [next_prime(B64, lambda p: p % 4 == 1), 13, 5, 17, 3]:
        F = Fp(p, 'default')
        fs.append(Quad(F, F.nqr()))
    return fs


def c02(rnd, big):
    out = []
    for S in quad_fields(rnd, big):
        e = S.edges()
        if S.base.p < 12:
            e = [(a, b) for a in range(S.base.p) for b in range(S.base.p)]
        vals = list(dict.fromkeys(rnd.sample(e, min(14, len(e))) + [S.rnd(rnd) for _ in range(8)] + [S.zero, S.one, (S.base.zero, S.base.one)]))
        out += ring_ops(S, vals, "%s over Fp %s p=%d d=%s" % (S.kind, S.base.impl, S.base.p, S.d), rnd, npairs=50 if not big else 400,
                        scalars=(S.base.p, -S.base.p))
    # towers
    F = Fp(7, 'naive')
    K = Quad(F, None, 'K')
    for d in ((1, 1), (2, 1), (1, 2), (0, 1), (3, 1), (4, 3)):
        if not K.is_sqr(d):
            T = Quad(K, d, 'T')

            def dec(c, K=K, F=F, T=T):
                F.declare(c)
                K.declare(c)
                T.declare(c)
            vals = [T.zero, T.one] + [T.rnd(rnd) for _ in range(12)]
            out += ring_ops(T, vals, "quadratic tower over F49", rnd, npairs=40, setup=dec)
            break
    return out


def with_base(S):
    def dec(c):
        chain = []
        b = S
        while b is not None:
            chain.append(b)
            b = getattr(b, 'base', None) or getattr(b, 'F', None)
        for x in reversed(chain):
            x.declare(c)
    return dec


def irreducible(p, n, rnd):
    """monic irreducible polynomial of prime degree or small degree, low coefficients"""
    while True:
        m = [rnd.randrange(p) for _ in range(n)]
        K = PolyModO(Fp(p), m)
        x = (0, 1) + (0,) * (n - 2) if n > 1 else None
        if n == 1:
            return m
        # x^(p^n) == x and gcd(x^(p^(n/q)) - x, m) == 1
        y = K.pw(x, p ** n)
        if y != x:
            continue
        ok = True
        for q in (2, 3, 5, 7):
            if n % q == 0:
                y = K.pw(x, p ** (n // q))
                d = [a - b for a, b in zip(y, x)]
                if len(pgcd(p, [t % p for t in d], list(m) + [1])) != 1:
                    ok = False
        if ok:
            return m


def ptrim(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return a


def pdivmod(p, a, b):
    a, b = ptrim(a), ptrim(b)
    q = [0] * max(0, len(a) - len(b) + 1)
    inv = pow(b[-1], -1, p)
    while len(a) >= len(b):
        c = a[-1] * inv % p
        s = len(a) - len(b)
        q[s] = c
        for i, x in enumerate(b):
            a[s + i] = (a[s + i] - c * x) % p
        a = ptrim(a)
    return ptrim(q), a


def pgcd(p, a, b):
    a, b = ptrim(a), ptrim(b)
    while b:
        a, b = b, pdivmod(p, a, b)[1]
    return a


class PolyRing:
    """Fp[x], values are trimmed tuples"""

    def __init__(self, F, name='R'):
        self.F, self.name = F, name
        self.base = F
        self.zero, self.one, self.char = (), (1,), F.char

    def declare(self, c):
        c("poly %s %s" % (self.name, self.F.name), "el %s %s_c" % (self.F.name, self.name))

    def set(self, c, e, v):
        c("set0 " + e)
        for i, x in enumerate(v):
            c("setz %s_c %d" % (self.name, x), "polyset %s %s_c %d" % (e, self.name, i))

    def tr(self, a): return tuple(ptrim([x % self.F.p for x in a]))
    def add(self, a, b):
        n = max(len(a), len(b))
        return self.tr([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])
    def neg(self, a): return self.tr([-x for x in a])
    def sub(self, a, b): return self.add(a, self.neg(b))
    def scal(self, k, a): return self.tr([k * x for x in a])
    def mul(self, a, b):
        if not a or not b:
            return ()
        r = [0] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] += x * y
        return self.tr(r)
    def show(self, a): return "[" + " ".join(str(x) for x in a) + "]"
    def rnd(self, r, d=6): return self.tr([self.F.rnd(r) for _ in range(r.randrange(d))])


def c03(rnd, big):
    out = []
    for p in (5, 7, 11, 65537, next_prime(1 << 159)):
        F = Fp(p, 'default')
        R = PolyRing(F)
        vals = [(), (1,), (0, 1), (1, 1), (p - 1, 1), (p - 1,), (0, 0, 0, 1), (1, 2, 3), (0, 0, p - 3)]
        vals += [R.rnd(rnd, 8) for _ in range(8)]
        vals = list(dict.fromkeys(R.tr(v) for v in vals))
        out += ring_ops(R, vals, "poly ring over F_%d" % p, rnd, npairs=60 if not big else 300, scalars=(p, -p, p * 3), setup=with_base(R), field=False)
        # degree, constant multiples, monic gcd-free facts
        c = Case("poly misc p=%d" % p)
        with_base(R)(c)
        c("el R a b", "el F k")
        for v in vals:
            R.set(c, 'a', v)
            c.q("polydeg a", str(len(v) - 1))
            for k in (0, 1, p - 1, F.rnd(rnd)):
                c("setz k %d" % k, "polyconstmul b k a").q("val b a", R.show(R.scal(k, v)) + " " + R.show(v))
            R.set(c, 'a', v)
            c("polyset0 a %d" % rnd.randrange(4))
        c("polysetx a").q("val a", "[0 1]")
        out.append(c)
    for p in (3, 5, 7, 13, 257, next_prime(B64), next_prime(1 << 159)):
        for n in ((2, 3, 4, 5, 6) if p < 1000 else (2, 3, 5, 6) if big else (3, 6)):
            m = irreducible(p, n, rnd)
            S = PolyModO(Fp(p, 'default'), m)
            vals = list(dict.fromkeys(S.edges() + [S.rnd(rnd) for _ in range(6)]))
            out += ring_ops(S, vals, "F_%d[x]/deg %d %s" % (p, n, m), rnd, npairs=30 if not big else 200, scalars=(p, -p), setup=with_base(S))
            c = Case("polymod const F_%d deg %d" % (p, n))
            with_base(S)(c)
            c("el K a b r", "el F k", "el %s f" % 'K_R')
            for v in vals:
                k = S.base.rnd(rnd)
                S.set(c, 'a', v)
                c("setz k %d" % k, "polymodconstmul r k a").q("val r a", S.show(S.scal(k, v)) + " " + S.show(v))
                c("fieldtopolymod r k").q("val r", S.show(S.scal(k, S.one)))
            out.append(c)
    # irreducibility and roots of monic polynomials
    for p in (3, 5, 7, 11, 101):
        F = Fp(p, 'default')
        R = PolyRing(F)
        c = Case("irreducibility p=%d" % p)
        with_base(R)(c)
        c("el R a", "el F x")
        todo = []
        for d in (1, 2, 3, 4):
            alls = p ** d
            todo += [[(k // p ** i) % p for i in range(d)] + [1] for k in (range(alls) if alls <= 130 else rnd.sample(range(alls), 40 if not big else 400))]
        for v in todo:
            d = len(v) - 1
            roots = [x for x in range(p) if sum(k * pow(x, i, p) for i, k in enumerate(v)) % p == 0]
            irr = d == 1 or (not roots and (d <= 3 or not any(len(pdivmod(p, v, [q0, q1, 1])[1]) == 0 for q0 in range(p) for q1 in range(p))))
            R.set(c, 'a', v)
            c.q("polyisirred a", "%d" % irr)
            c.q("polydeg a", str(d))
        out.append(c)
    return out


def small_curves():
    """every curve over tiny prime fields, with all its points (exhaustive group tables)"""
    out = []
    for p in (5, 7, 11):
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b * b) % p:
                    out.append((p, a, b))
    return out


def big_points(rnd, F, a, b, n):
    pts = []
    E = Curve(F, a, b, 1)
    while len(pts) < n:
        x = F.rnd(rnd)
        y = sqrt_fp(E.rhs(x), F.p, rnd)
        if y is not None:
            pts.append((x, y if rnd.random() < .5 else -y % F.p))
    return pts


def curve_case(E, pts, label, rnd, pairs):
    cs = []
    c = Case("group law " + label)
    with_base(E)(c)
    c("el %s P Q R" % E.name)
    for P, Q in pairs:
        k = rnd.randrange(5)
        E.set(c, 'P', P)
        E.set(c, 'Q', Q)
        if rnd.random() < .5:
            E.set(c, 'R', pts[rnd.randrange(len(pts))])
        sP, sQ = E.show(P), E.show(Q)
        op, w = [('add', E.add(P, Q)), ('mul', E.add(P, Q)), ('sub_', E.add(P, E.neg(Q))), ('div', E.add(P, E.neg(Q)))][rnd.randrange(4)]
        if k == 0:
            c("%s P P Q" % op).q("val P Q", E.show(w) + " " + sQ)
        elif k == 1:
            c("%s Q P Q" % op).q("val Q P", E.show(w) + " " + sP)
        else:
            c("%s R P Q" % op).q("val R P Q", "%s %s %s" % (E.show(w), sP, sQ))
        if rnd.random() < .3:
            E.set(c, 'P', P)
            E.set(c, 'Q', Q)
            c.q("cmp P Q", "%d" % (P != Q))
    for P in pts[:60]:
        d = E.show(E.add(P, P))
        for op, w in (('double', d), ('square', d), ('neg', E.show(E.neg(P))), ('invert', E.show(E.neg(P))), ('set', E.show(P))):
            E.set(c, 'P', P)
            if rnd.random() < .5:
                E.set(c, 'R', pts[rnd.randrange(len(pts))])
            c("%s R P" % op).q("val R P", w + " " + E.show(P))
            c("%s P P" % op).q("val P", w)
        E.set(c, 'P', P)
        c("add R P P").q("val R", d)
        c("add P P P").q("val P", d)
        E.set(c, 'P', P)
        c.q("is0 P", "%d" % (P is None)).q("is1 P", "%d" % (P is None))
        c("sub_ R P P").q("val R", "O").q("is0 R", "1")
    cs.append(c)
    c = Case("batch " + label)
    with_base(E)(c)
    c("elarr %s p 5" % E.name, "elarr %s q 5" % E.name, "elarr %s r 5" % E.name)
    for t in range(14):
        n = rnd.choice([1, 2, 3, 4, 5])
        A = [rnd.choice(pts) for _ in range(n)]
        Bq = [rnd.choice([x, E.neg(x), None, rnd.choice(pts), rnd.choice(pts)]) for x in A]
        for i in range(n):
            E.set(c, 'p%d' % i, A[i])
            E.set(c, 'q%d' % i, Bq[i])
        m = rnd.randrange(4)
        if m == 0:
            c("multidouble r p %d" % n)
            for i in range(n):
                c.q("val r%d" % i, E.show(E.add(A[i], A[i])))
        elif m == 1:
            c("multidouble p p %d" % n)
            for i in range(n):
                c.q("val p%d" % i, E.show(E.add(A[i], A[i])))
        elif m == 2:
            c("multiadd r p q %d" % n)
            for i in range(n):
                c.q("val r%d" % i, E.show(E.add(A[i], Bq[i])))
        else:
            c("multiadd p p q %d" % n)
            for i in range(n):
                c.q("val p%d" % i, E.show(E.add(A[i], Bq[i])))
    cs.append(c)
    return cs


def c04(rnd, big):
    out = []
    sc = small_curves()
    for p, a, b in (sc if big else rnd.sample(sc, 24)):
        F = Fp(p, 'naive')
        E = Curve(F, a, b, 1)
        pts = E.points_brute()
        E.order = len(pts)
        pairs = [(P, Q) for P in pts for Q in pts]
        out += curve_case(E, pts, "y^2=x^3+%dx+%d over F_%d" % (a, b, p), rnd, pairs)
    for p in (next_prime(B64, p3), prev_prime(B64 ** 2), next_prime(1 << 159)):
        F = Fp(p, 'default')
        for a, b in ((1, 0), (0, 3), (F.rnd(rnd), F.rnd(rnd)), (p - 3, 7)):
            E = Curve(F, a, b, 7)
            pts = big_points(rnd, F, a, b, 8) + [None]
            if b == 0:
                pts.append((0, 0))
            pairs = [(P, Q) for P in pts for Q in pts + [E.neg(P)]]
            out += curve_case(E, pts, "a=%d b=%d over F_%d" % (a, b, p), rnd, pairs)
    # extension-field curve
    K = Quad(Fp(11, 'naive'), None, 'K')
    E = Curve(K, (1, 2), (3, 4), 1)
    pts = [None]
    els = [(x, y) for x in range(11) for y in range(11)]
    sq = {}
    for y in els:
        sq.setdefault(K.mul(y, y), []).append(y)
    for x in els:
        for y in sq.get(E.rhs(x), ()):
            pts.append((x, y))
    E.order = len(pts)
    sub = pts[:1] + rnd.sample(pts[1:], 12)
    pairs = [(P, Q) for P in sub for Q in sub + [E.neg(P)]]
    out += curve_case(E, sub, "over F_121", rnd, pairs)
    # quotient comparison: equality modulo the subgroup of order cofactor
    return out
