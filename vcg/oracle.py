"""Independent reference arithmetic (Python integers) and script builders for the driver."""
import random


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n, f=lambda p: True):
    n += 1
    while not (is_prime(n) and f(n)):
        n += 1
    return n


def prev_prime(n, f=lambda p: True):
    n -= 1
    while not (is_prime(n) and f(n)):
        n -= 1
    return n


class Fp:
    """residues modulo p"""

    def __init__(self, p, impl='default', name='F'):
        self.p, self.impl, self.name = p, impl, name
        self.order = p
        self.zero, self.one = 0, 1 % p
        self.char = p

    def declare(self, c):
        c("fp %s %s %d" % (self.name, self.impl, self.p))

    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def neg(self, a): return -a % self.p
    def scal(self, k, a): return k * a % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def show(self, a): return str(a)
    def rnd(self, r): return r.randrange(self.p)

    def edges(self):
        p = self.p
        B = 1 << 64
        es = {0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, B - 1, B, B + 1, p - B, p - (B - 1), (B * B - 1), B * B,
              1 << (p.bit_length() - 1), pow(2, 64 * ((p.bit_length() + 63) // 64), p)}
        t = (p.bit_length() + 63) // 64
        es.add(pow(B, -1, p) if p % 2 else 1)
        es.add(pow(pow(B, t, p), -1, p) if p % 2 else 1)
        es.add(p >> 1 << 1)
        return sorted({e % p for e in es})

    def set(self, c, e, v):
        c("setz %s %d" % (e, v))

    def pw(self, a, n):
        if n < 0:
            return self.pw(self.inv(a), -n)
        return pow(a, n, self.p)

    def is_sqr(self, a):
        return a == 0 or pow(a, (self.p - 1) // 2, self.p) == 1

    def nqr(self):
        n = 2
        while self.is_sqr(n):
            n += 1
        return n

    def bytes(self, a):
        return a.to_bytes(self.blen(), 'big')

    def blen(self):
        return (self.p.bit_length() + 7) // 8

    def unbytes(self, b):
        return int.from_bytes(b, 'big') % self.p


class Gen:
    """generic pieces for structured rings"""

    def pw(self, a, n):
        if n < 0:
            return self.pw(self.inv(a), -n)
        r = self.one
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r

    def sub(self, a, b): return self.add(a, self.neg(b))

    def is_sqr(self, a):
        return a == self.zero or self.pw(a, (self.order - 1) // 2) == self.one

    def bytes(self, a):
        return b''.join(self.base.bytes(x) for x in a)

    def blen(self):
        return self.n * self.base.blen()

    def unbytes(self, b):
        k = self.base.blen()
        return tuple(self.base.unbytes(b[i * k:i * k + k]) for i in range(self.n))

    def show(self, a):
        return "[" + " ".join(self.base.show(x) for x in a) + "]"

    def set(self, c, e, v):
        for i, x in enumerate(v):
            c("sub %s.%d %s %d" % (e, i, e, i))
            self.base.set(c, "%s.%d" % (e, i), x)

    def rnd(self, r):
        return tuple(self.base.rnd(r) for _ in range(self.n))


class Quad(Gen):
    """base[x]/(x^2 - d)"""
    n = 2

    def __init__(self, base, d=None, name='K'):
        self.base, self.name = base, name
        self.kind = 'fi' if d is None else 'quad'
        self.d = base.neg(base.one) if d is None else d
        self.zero, self.one = (base.zero, base.zero), (base.one, base.zero)
        self.order = base.order ** 2
        self.char = base.char

    def declare(self, c):
        b = self.base
        if self.kind == 'quad':
            c("el %s %s_nqr" % (b.name, self.name))
            b.set(c, self.name + "_nqr", self.d)
            c("setnqr %s %s_nqr" % (b.name, self.name))
        c("%s %s %s" % (self.kind, self.name, b.name))

    def add(self, a, b): return tuple(self.base.add(x, y) for x, y in zip(a, b))
    def neg(self, a): return tuple(self.base.neg(x) for x in a)
    def scal(self, k, a): return tuple(self.base.scal(k, x) for x in a)

    def mul(self, a, b):
        f = self.base
        return (f.add(f.mul(a[0], b[0]), f.mul(self.d, f.mul(a[1], b[1]))), f.add(f.mul(a[0], b[1]), f.mul(a[1], b[0])))

    def inv(self, a):
        f = self.base
        n = f.sub(f.mul(a[0], a[0]), f.mul(self.d, f.mul(a[1], a[1])))
        n = f.inv(n)
        return (f.mul(a[0], n), f.neg(f.mul(a[1], n)))

    def edges(self):
        e = self.base.edges() if isinstance(self.base, Fp) else [self.base.zero, self.base.one, self.base.neg(self.base.one)]
        e = e[:2] + e[-2:] + e[2:4]
        return [(a, b) for a in e for b in e]


class PolyModO(Gen):
    """base[x]/(monic m); m = tuple of n low coefficients"""

    def __init__(self, base, m, name='K'):
        self.base, self.m, self.n, self.name = base, tuple(m), len(m), name
        self.zero = (base.zero,) * self.n
        self.one = (base.one,) + (base.zero,) * (self.n - 1)
        self.order = base.order ** self.n
        self.char = base.char

    def declare(self, c):
        b = self.base
        R = self.name + "_R"
        c("poly %s %s" % (R, b.name), "el %s %s_m" % (R, self.name), "el %s %s_c" % (b.name, self.name))
        for i, x in enumerate(self.m):
            b.set(c, self.name + "_c", x)
            c("polyset %s_m %s_c %d" % (self.name, self.name, i))
        c("polyset1 %s_m %d" % (self.name, self.n))
        c("polymod %s %s_m" % (self.name, self.name))

    def add(self, a, b): return tuple(self.base.add(x, y) for x, y in zip(a, b))
    def neg(self, a): return tuple(self.base.neg(x) for x in a)
    def scal(self, k, a): return tuple(self.base.scal(k, x) for x in a)

    def mul(self, a, b):
        f = self.base
        n = self.n
        r = [f.zero] * (2 * n - 1)
        for i in range(n):
            for j in range(n):
                r[i + j] = f.add(r[i + j], f.mul(a[i], b[j]))
        for k in range(2 * n - 2, n - 1, -1):
            t = r[k]
            for j in range(n):
                r[k - n + j] = f.sub(r[k - n + j], f.mul(t, self.m[j]))
        return tuple(r[:n])

    def inv(self, a):
        return self.pw(a, self.order - 2)

    def edges(self):
        f = self.base
        o, z, mo = f.one, f.zero, f.neg(f.one)
        return [self.zero, self.one, self.neg(self.one), (z, o) + (z,) * (self.n - 2), (z,) * (self.n - 1) + (o,), (mo,) * self.n, (o,) * self.n]


class Curve:
    """y^2 = x^3 + a x + b; None is O"""

    def __init__(self, F, a, b, order, cofac=None, name='E'):
        self.F, self.a, self.b, self.order, self.cofac, self.name = F, a, b, order, cofac, name

    def declare(self, c):
        f = self.F
        n = self.name
        c("el %s %s_a %s_b" % (f.name, n, n))
        f.set(c, n + "_a", self.a)
        f.set(c, n + "_b", self.b)
        c("curve %s %s_a %s_b %d %s" % (n, n, n, self.order, '-' if self.cofac is None else str(self.cofac)))

    def set(self, c, e, P):
        if P is None:
            c("set0 " + e)
            return
        c("finite " + e, "sub %s.x %s x" % (e, e), "sub %s.y %s y" % (e, e))
        self.F.set(c, e + ".x", P[0])
        self.F.set(c, e + ".y", P[1])

    def show(self, P):
        return "O" if P is None else "[%s %s]" % (self.F.show(P[0]), self.F.show(P[1]))

    def rhs(self, x):
        f = self.F
        return f.add(f.add(f.mul(x, f.mul(x, x)), f.mul(self.a, x)), self.b)

    def on(self, P):
        return P is None or self.F.mul(P[1], P[1]) == self.rhs(P[0])

    def neg(self, P):
        return None if P is None else (P[0], self.F.neg(P[1]))

    def add(self, P, Q):
        f = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == f.zero:
                return None
            l = f.mul(f.add(f.scal(3, f.mul(P[0], P[0])), self.a), f.inv(f.scal(2, P[1])))
        else:
            l = f.mul(f.sub(Q[1], P[1]), f.inv(f.sub(Q[0], P[0])))
        x = f.sub(f.sub(f.mul(l, l), P[0]), Q[0])
        return (x, f.sub(f.mul(l, f.sub(P[0], x)), P[1]))

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def points_brute(self):
        """all points over a small prime field"""
        p = self.F.p
        sq = {}
        for y in range(p):
            sq.setdefault(y * y % p, []).append(y)
        return [None] + [(x, y) for x in range(p) for y in sq.get(self.rhs(x), ())]


def sqrt_fp(a, p, rnd=random.Random(5)):
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    while True:
        t = rnd.randrange(p)
        if pow(t * t - a, (p - 1) // 2, p) == p - 1:
            break
    w = (t * t - a) % p
    # (t + sqrt w)^((p+1)/2)
    def mul(x, y):
        return ((x[0] * y[0] + x[1] * y[1] * w) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    r, b, e = (1, 0), (t, 1), (p + 1) // 2
    while e:
        if e & 1:
            r = mul(r, b)
        b = mul(b, b)
        e >>= 1
    return r[0]


B64 = 1 << 64
# multi-limb primes with diverse limb shapes
P_BIG = [next_prime(B64), prev_prime(B64 ** 2), next_prime(B64 ** 2 // 2), next_prime(B64 * 3 + 12345), prev_prime(B64 ** 2 - B64),
         next_prime(B64 ** 2), prev_prime(B64 ** 3), next_prime((1 << 159) + 12345678901234567890), next_prime(B64 * (B64 - 1)),
         prev_prime(B64 ** 4), next_prime(1 << 511)]
P_SMALL = [3, 5, 7, 11, 13, 17, 31, 257, 65537, prev_prime(1 << 31), prev_prime(1 << 63), prev_prime(B64)]
IMPLS_BIG = ['naive', 'fast', 'faster', 'mont', 'default']
IMPLS_SMALL = ['naive', 'default']
