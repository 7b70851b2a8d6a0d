"""Bounded conformance scripts: hashing and randomness, integers, ternary fields,
orders and generated parameters, containers, discrete logarithms, leaks (C14-C20)"""
import random
from .conf import Case, ANY
from .oracle import *
from .conf_arith import *
from .conf_elem import *
from . import params


def decl(c, S):
    """declare S and everything below it"""
    b = getattr(S, 'base', None) or getattr(S, 'F', None)
    if b is not None:
        decl(c, b)
    S.declare(c)


def hx(b):
    return b.hex() if b else '-'


# ---------------------------------------------------------------- C14

def c14(rnd, big):
    out = []
    # integers from hashes: in range, a function of the bytes alone, sensitive to every byte that fits
    for bits in (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 160, 161, 255, 256, 512):
        lims = {1 << bits, (1 << bits) - 1, (1 << (bits - 1)) + 1, rnd.getrandbits(bits) | 1 << (bits - 1)}
        for lim in sorted(l for l in lims if l > 0):
            c = Case("integer below %d from hashes" % lim)
            for n in (1, 2, 3, 4, 8, 19, 20, 21, 32, 64, 65):
                data = bytes(rnd.getrandbits(8) for _ in range(n))
                for d in (data, b'\xff' * n, b'\0' * n, data):
                    got = {}

                    def rng(s, lim=lim, d=d, seen=got):
                        v = int(s)
                        if not 0 <= v < lim:
                            return "not in [0,%d)" % lim
                        return True
                    c.q("mpzhash %d %s" % (lim, hx(d)), rng)
                memo = {}

                def first(s, memo=memo):
                    memo['v'] = int(s)
                    return True

                def again(s, memo=memo):
                    return True if int(s) == memo['v'] else "differs from the same hash before (%d)" % memo['v']
                c.q("mpzhash %d %s" % (lim, hx(data)), first)
                c.q("mpzhash %d %s" % (lim, hx(data)), again)
            out.append(c)
    for nbytes in (20, 21, 32, 33, 64):
        # the limit is huge compared with the hash: every byte must matter
        for n in (1, 4, 19, 20, 32):
            if n > nbytes:
                continue
            c = Case("every byte of a %d-byte hash matters below 2^%d" % (n, 8 * nbytes))
            data = bytes(rnd.getrandbits(8) for _ in range(n))
            memo = {}

            def first(s, memo=memo):
                memo['v'] = int(s)
                return True

            def diff(s, memo=memo):
                return True if int(s) != memo['v'] else "a byte of the hash does not matter"
            lim = (1 << 8 * nbytes) - 1
            c.q("mpzhash %d %s" % (lim, hx(data)), first)
            for i in range(n):
                for b in (1, 0x80):
                    d2 = bytearray(data)
                    d2[i] ^= b
                    c.q("mpzhash %d %s" % (lim, hx(bytes(d2))), diff)
            out.append(c)
    # random integers
    for src in ('seed 7', 'randfile /dev/urandom', None):
        c = Case("random integers in range (%s)" % src)
        if src:
            c(src)
        for lim in [1, 2, 3, 5, 7, 8, 9, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 160) + 7]:
            for _ in range(12 if lim < 300 else 4):
                c.q("mpzrandom %d" % lim, lambda s, lim=lim: True if 0 <= int(s) < lim else "out of range")
        for b in (0, 1, 2, 7, 8, 9, 16, 63, 64, 65, 160):
            for _ in range(4):
                c.q("mpzrandomb %d" % b, lambda s, b=b: True if 0 <= int(s) < 1 << b else "out of range")
        out.append(c)
        # every value below a small limit turns up
        c = Case("random integers reach every value (%s)" % src)
        if src:
            c(src)
        for lim in (2, 3, 5, 8):
            seen = set()
            for k in range(120):
                c.q("mpzrandom %d" % lim, lambda s, seen=seen, lim=lim, k=k: (seen.add(int(s)), True if k < 119 or len(seen) == lim else "only %s of [0,%d) in 120 draws" % (sorted(seen), lim))[1])
        out.append(c)
    # determinism from the seed
    for seed in (0, 1, 12345, 4294967295):
        c = Case("seed %d reproduces the sequence" % seed)
        seqs = [[], []]
        for k in range(2):
            c("fp F naive %d" % 1000003 if k == 0 else "# again", "seed %d" % seed)
            if k == 0:
                c("el F x")
            for i, lim in enumerate((10 ** 6, 1 << 70, 3, (1 << 160) + 7)):
                c.q("mpzrandom %d" % lim, lambda s, k=k, i=i, seqs=seqs: (seqs[k].append(s), True if k == 0 or seqs[0][i] == s else "differs")[1])
            c("random x")
            c.q("val x", lambda s, k=k, seqs=seqs: (seqs[k].append(s), True if k == 0 or seqs[0][4] == s else "differs")[1])
        out.append(c)
    # random and hashed elements of every kind of field are members
    for S in field_zoo(rnd, big):
        c = Case("random and hashed elements of %s" % desc(S))
        decl(c, S)
        c("el %s x y" % S.name)
        leaf = leafprime(S)

        def member(s, leaf=leaf):
            import re
            vs = [int(t) for t in re.findall(r'-?\d+', s)]
            return True if all(0 <= v < leaf for v in vs) else "coefficient out of range"
        for sd in ('seed 3', 'randfile /dev/urandom'):
            c(sd)
            for _ in range(6):
                c("random x").q("val x", member)
                c("sub_ y x x").q("is0 y", "1")
        for n in (1, 5, 20, 32, 70):
            d = bytes(rnd.getrandbits(8) for _ in range(n))
            c("hash x %s" % hx(d)).q("val x", member)
            c("hash y %s" % hx(d)).q("cmp x y", "0")
        out.append(c)
    # groups
    texts = [t for _, _, _, t in params.type_a(7)] + [t for _, _, _, t in params.type_a1((5, 15, 77))] + params.listed(params.D)[:5] + params.listed(params.G)[:1] + params.listed(params.F_)[:1] + params.listed(params.E_)[:1]
    for t in texts:
        c = Case("random and hashed elements of the groups of %s" % t.replace('\n', '|')[:90])
        c.q("pairing P %s" % hx(t.encode()), "0")
        c.q("pr P", ANY)
        f = params.fields(t)
        r = int(f.get('r', f.get('n', 0)))
        q = int(f.get('q', f.get('p', 0)))
        for g in ('G1', 'G2', 'GT'):
            c("pel P %s x%s y%s z%s o%s" % (g, g, g, g, g), "set1 o%s" % g)
            for sd in range(8):
                c("seed %d" % sd, "random x%s" % g, "powz z%s x%s %d" % (g, g, r)).q("cmp z%s o%s" % (g, g), "0")
                c("seed %d" % sd, "random y%s" % g).q("cmp x%s y%s" % (g, g), "0")
            for n in (1, 4, 20, 33):
                if g != 'GT' and (q >> 40) == 0:
                    continue    # over a tiny field the search for a point may cycle, see DESIGN.md
                d = bytes(rnd.getrandbits(8) for _ in range(n))
                c("hash x%s %s" % (g, hx(d)), "powz z%s x%s %d" % (g, g, r)).q("cmp z%s o%s" % (g, g), "0")
                c("hash y%s %s" % (g, hx(d))).q("cmp x%s y%s" % (g, g), "0")
        c("pel P Zr k l")
        for n in (1, 4, 20, 33):
            d = bytes(rnd.getrandbits(8) for _ in range(n))
            c("hash k %s" % hx(d)).q("toz k", lambda s, r=r: True if 0 <= int(s) < r else "out of range")
            c("random k").q("toz k", lambda s, r=r: True if 0 <= int(s) < r else "out of range")
        out.append(c)
    # full-size groups: different hashes give different elements, none of them the identity
    for nm in ('a', 'd159', 'e', 'f', 'g149') + (('a1',) if big else ()):
        t = params.full(nm)
        f = params.fields(t)
        r = int(f.get('r', f.get('n', 0)))
        for g in ('G1', 'G2', 'GT') if nm != 'e' else ('G1', 'GT'):
            c = Case("hashed and random elements of %s of %s.param" % (g, nm))
            c.q("pairing P %s" % hx(t.encode()), "0")
            c("pel P %s x y z o" % g, "set1 o")
            seen = []
            for k in range(5):
                d = bytes(rnd.getrandbits(8) for _ in range((20, 32, 64, 20, 12)[k]))
                c("pel P %s h%d" % (g, k), "hash h%d %s" % (k, hx(d)), "hash y %s" % hx(d)).q("cmp h%d y" % k, "0")
                c.q("cmp h%d o" % k, "1", )
                if k < 2:
                    c("powz z h%d %d" % (k, r)).q("cmp z o", "0")
                for j in range(k):
                    c.q("cmp h%d h%d" % (k, j), "1")
            c("seed 1", "random x", "random y").q("cmp x y", "1").q("cmp x o", "1")
            c("powz z x %d" % r).q("cmp z o", "0")
            out.append(c)
    # a recorded finding: x -> x^2 + 1 may cycle through abscissas that carry no point
    c = Case("hash to a point over F_43 that never returns")
    c.q("pairing P %s" % hx(b"type a\nq 43\nh 4\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n"), "0")
    c("pel P G1 x", "alarm 3")
    for k in range(43):
        c("hash x %02x" % k)
    out.append(c)
    # a random source that ends too early leaves the target alone and does not crash
    import os
    c = Case("a random source that cannot be read")
    c("randfile /dev/null")
    c.q("mpzrandom 1000", ANY)
    c("randfile /nonexistent/source")
    c.q("mpzrandom 1000", ANY)
    out.append(c)
    return out


def leafprime(S):
    while not isinstance(S, Fp):
        S = S.base
    return S.p


# ---------------------------------------------------------------- C15

def zbytes(v):
    n = abs(v).bit_length() // 8 + 1 if v else 1
    if v == 0:
        n = 1
    b = bytearray(abs(v).to_bytes(n, 'big'))
    if v < 0:
        b[0] |= 128
    return n.to_bytes(4, 'big') + bytes(b)


ZV = [0, 1, -1, 2, -2, 3, 7, 127, 128, 129, 255, 256, -127, -128, -255, -256, 32767, 32768, (1 << 31) - 1, 1 << 31, (1 << 63) - 1, -(1 << 63), 1 << 63, (1 << 64) - 1, 1 << 64, -(1 << 64),
      (1 << 128) - 1, 10 ** 40, -10 ** 40]


def mlist(c, names, nm, v):
    """declare and set the element nm of the ring of nested lists to v"""
    if isinstance(v, int):
        c("el M %s" % nm, "setz %s %d" % (nm, v))
        return
    k = names[0]
    names[0] += 1
    mlist(c, names, "t%d_0" % k, v[0])
    c("mlist %s t%d_0" % (nm, k))
    for i, x in enumerate(v[1:], 1):
        mlist(c, names, "t%d_%d" % (k, i), x)
        c("mappend %s t%d_%d" % (nm, k, i))


def mshow(v):
    return str(v) if isinstance(v, int) else "[" + " ".join(mshow(x) for x in v) + "]"


def mtext(v):
    return str(v) if isinstance(v, int) else "[" + ", ".join(mtext(x) for x in v) + "]"


def madd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        return [madd(a, b[0])] + list(b[1:])
    if isinstance(b, int):
        return [madd(a[0], b)] + list(a[1:])
    n = max(len(a), len(b))
    return [madd(a[i] if i < len(a) else 0, b[i] if i < len(b) else 0) for i in range(n)]


def mmap(f, a):
    return f(a) if isinstance(a, int) else [mmap(f, x) for x in a]


def mmul(a, b):
    if isinstance(a, int):
        return mmap(lambda x: a * x, b)
    if isinstance(b, int):
        return mmap(lambda x: b * x, a)
    out = []
    for i in range(len(a) + len(b) - 1):
        z = 0
        for j in range(i + 1):
            z = madd(z, mmul(a[j] if j < len(a) else 0, b[i - j] if i - j < len(b) else 0))
        out.append(z)
    return out


def mcmp(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a > b) - (a < b)
    A = [a] if isinstance(a, int) else a
    B = [b] if isinstance(b, int) else b
    for i in range(max(len(A), len(B)) - 1, -1, -1):
        r = mcmp(A[i] if i < len(A) else 0, B[i] if i < len(B) else 0)
        if r:
            return r
    return 0


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def c15(rnd, big):
    out = []
    vals = ZV + [rnd.getrandbits(90) - (1 << 89) for _ in range(4)]
    for a in vals:
        c = Case("integers with %d" % a)
        c("z Z", "el Z a b c d", "setz a %d" % a)
        c.q("val a", str(a)).q("is0 a", str(int(a == 0))).q("is1 a", str(int(a == 1))).q("sgn a", str((a > 0) - (a < 0)))
        c("neg c a").q("val c", str(-a))
        c("double c a").q("val c", str(2 * a))
        c("square c a").q("val c", str(a * a))
        c("set c a").q("val c", str(a)).q("toz a", str(a))
        c("mulsi c a -7").q("val c", str(-7 * a))
        c("mulz c a %d" % (10 ** 30)).q("val c", str(a * 10 ** 30))
        if a % 2 == 0:
            c("halve c a").q("val c", str(a // 2))
        for e in (0, 1, 2, 3, 5, 64, 128) if abs(a) < 1000 else (0, 1, 2, 5):
            c("powz c a %d" % e).q("val c", str(a ** e))
        z = zbytes(a)
        c.q("len a", str(len(z))).q("tobytes a", "%d %d %s" % (len(z), len(z), z.hex()))
        c("rt a c").q("val c", str(a))
        c.q("frombytes c %s" % z.hex(), str(len(z))).q("val c", str(a))
        t = str(a).encode()
        c.q("outstr a 10", "%d %s" % (len(t), t.hex()))
        for b in (2, 10, 16, 36):
            c.q("rtstr c a %d" % b, ANY).q("val c", str(a))
        for b in rnd.sample(vals, 7):
            c("setz b %d" % b, "add c a b").q("val c", str(a + b))
            c("sub_ c a b").q("val c", str(a - b))
            c("mul c a b").q("val c", str(a * b)).q("cmpsign a b", str((a > b) - (a < b))).q("cmp a b", str(int(a != b)))
            if b:
                c("mul d a b", "div c d b").q("val c", str(a))
            c.q("val a b", "%d %d" % (a, b))
            c("set c a", "add c c b").q("val c", str(a + b))
            c("set c a", "mul c b c").q("val c", str(a * b))
            c("set c a", "sub_ c b c").q("val c", str(b - a))
            c("set c a", "sub_ c c c").q("val c", "0")
        out.append(c)
    # encodings longer than the low half of their length word
    for fld in ("z Z", "multizfield Z"):
        for k, add in ((2039, 7), (2040, -1), (524279, 5), (524280, 9)):
            c = Case("integers of %d bits, %s" % (k, fld))
            c(fld, "el Z a b c", "setz a -2", "powz a a %d" % k, "setz b %d" % add, "add a a b", "rt a c").q("cmp a c", "0")
            out.append(c)
    # nested lists
    def rlist(depth):
        if depth == 0 or rnd.random() < .3:
            return rnd.choice([0, 1, -1, 2, 5, -7, rnd.getrandbits(70), -rnd.getrandbits(66)])
        return [rlist(depth - 1) for _ in range(rnd.randrange(1, 4))]
    lists = [[1], [0], [1, 2], [1, 2, 3], [0, 0, 1], [[1, 2], 3], [[1, 2], 3, [4, [5, 6]]], [[0]], [1, 0], [[1], [2, 3]], 5, 0, -3, list(range(1, 18)), [-1, -2], [10 ** 30, [-(10 ** 25), 1]]]
    lists += [rlist(3) for _ in range(24 if not big else 150)]
    for a in lists:
        c = Case("nested integers with %s" % mshow(a)[:100])
        n = [0]
        c("multizfield M", "el M c d e")
        mlist(c, n, "a", a)
        c.q("val a", mshow(a)).q("itemcount a", str(0 if isinstance(a, int) else len(a)))
        c.q("is0 a", str(int(a == 0))) if isinstance(a, int) else None
        t = mtext(a).encode()
        c.q("outstr a 10", "%d %s" % (len(t), t.hex())).q("snprint a %d" % (len(t) + 4), "%d %s" % (len(t), (t + b'\0~~~').hex()))
        c("set c a").q("val c", mshow(a)).q("cmp c a", "0")
        c("neg c a").q("val c", mshow(mmap(lambda x: -x, a))).q("val a", mshow(a))
        c("mulsi c a -5").q("val c", mshow(mmap(lambda x: -5 * x, a)))
        c("mulz c a %d" % (10 ** 25)).q("val c", mshow(mmap(lambda x: x * 10 ** 25, a)))
        c("setz d 3", "div e c d").q("val e", mshow(mmap(lambda x: tdiv(x * 10 ** 25, 3), a)))
        c("setmultiz c a").q("val c", mshow(a))
        # a copy shares nothing
        c("set c a", "set a c", "add c c c").q("val a", mshow(a)).q("val c", mshow(madd(a, a)))
        c("clear c", "el M c").q("val a", mshow(a))
        for k, b in enumerate(rnd.sample(lists, 8)):
            mlist(c, n, "b%d" % k, b)
            B = "b%d" % k
            c("add c a %s" % B).q("val c", mshow(madd(a, b)))
            c("add c %s a" % B).q("val c", mshow(madd(b, a)))
            c("sub_ c a %s" % B).q("val c", mshow(madd(a, mmap(lambda x: -x, b))))
            c("mul c a %s" % B).q("val c", mshow(mmul(a, b)))
            c.q("cmpsign a %s" % B, str(mcmp(a, b))).q("cmpsign %s a" % B, str(mcmp(b, a)))
            c("set c a", "add c c %s" % B).q("val c", mshow(madd(a, b)))
            c("set c a", "mul c %s c" % B).q("val c", mshow(mmul(b, a)))
            c("set c a", "mul c c c").q("val c", mshow(mmul(a, a)))
            c.q("val a %s" % B, mshow(a) + " " + mshow(b))
        out.append(c)
    # interchange: nested lists set elements of other rings
    for p in (13, 10007, (1 << 64) + 13):
        c = Case("lists set extension elements, p=%d" % p)
        K = Quad(Fp(p, 'naive'), Fp(p).nqr())
        decl(c, K)
        c("multizfield M", "el K x")
        for k, v in enumerate(([1, 2], [p + 3, -1], [0, 0], 5, -7)):
            mlist(c, [100 * k], "m%d" % k, v)
            c("setmultiz x m%d" % k)
            vv = (v % p, 0) if isinstance(v, int) else (v[0] % p, v[1] % p)
            c.q("val x", K.show(vv))
        out.append(c)
    return out


# ---------------------------------------------------------------- C16

def t3add(a, b): return tuple((x + y) % 3 for x, y in zip(a, b))
def t3neg(a): return tuple(-x % 3 for x in a)


class GF3m:
    """F3[x]/(x^m + x^t + 2)"""

    def __init__(self, m, t):
        self.m, self.t = m, t
        self.len = (m + 64) // 64
        self.zero = (0,) * m
        self.one = (1,) + (0,) * (m - 1)

    def add(self, a, b): return t3add(a, b)
    def neg(self, a): return t3neg(a)

    def mul(self, a, b):
        m, t = self.m, self.t
        r = [0] * (2 * m - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    r[i + j] += x * y
        for i in range(2 * m - 2, m - 1, -1):
            v = r[i] % 3
            r[i - m + t] -= v
            r[i - m] -= 2 * v
        return tuple(x % 3 for x in r[:m])

    def pw(self, a, n):
        r = self.one
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r

    def inv(self, a):
        # solve through the extended Euclid algorithm over F3[x]
        p = [2] + [0] * (self.m - 1) + [1]
        p[self.t] = (p[self.t] + 1) % 3
        r0, r1 = p, list(a)
        s0, s1 = [0], [1]

        def trim(x):
            while x and x[-1] == 0:
                x.pop()
            return x
        r1 = trim(r1)
        while len(r1) > 1:
            q = [0] * (len(r0) - len(r1) + 1)
            r = list(r0)
            iv = r1[-1]
            for i in range(len(r0) - len(r1), -1, -1):
                k = r[i + len(r1) - 1] * iv % 3
                q[i] = k
                for j, y in enumerate(r1):
                    r[i + j] = (r[i + j] - k * y) % 3
            n = [0] * (len(q) + len(s1))
            for i, x in enumerate(q):
                for j, y in enumerate(s1):
                    n[i + j] += x * y
            n = [((s0[i] if i < len(s0) else 0) - v) % 3 for i, v in enumerate(n)] + [v for v in s0[len(n):]]
            r0, r1 = r1, trim(r)
            s0, s1 = s1, n
        k = r1[0]
        s = [k * x % 3 for x in s1]
        s = s[:self.m] + [0] * (self.m - len(s))
        return tuple(s)

    def enc(self, a):
        o = bytearray()
        for w in range(self.len):
            for j in range(8):
                x = y = 0
                for b in range(8):
                    i = 64 * w + 8 * j + b
                    if i < self.m:
                        x |= (a[i] == 1) << b
                        y |= (a[i] == 2) << b
                o += bytes((x, y))
        return bytes(o)

    def words(self, txt):
        """printed words -> element, or None when not a canonical element"""
        w = [int(x) for x in txt.strip(',').split(',')]
        L = self.len
        if len(w) != 2 * L:
            return None
        a = sum(v << 64 * i for i, v in enumerate(w[:L]))
        b = sum(v << 64 * i for i, v in enumerate(w[L:]))
        if a & b or (a | b) >> self.m:
            return None
        return tuple((a >> i & 1) + 2 * (b >> i & 1) for i in range(self.m))

    def rnd(self, r): return tuple(r.randrange(3) for _ in range(self.m))


def irr3(m):
    """t with x^m + x^t + 2 irreducible over F3 (Rabin's test), or None"""
    for t in range(1, m):
        F = GF3m(m, t)
        x = (0, 1) + (0,) * (m - 2) if m > 1 else None
        def frob(a):
            return F.mul(a, F.mul(a, a))
        ys, y = [], x
        for i in range(m):
            y = frob(y)
            ys.append(y)
        if ys[m - 1] != x:
            continue
        ok = True
        for q in factor(m):
            d = t3add(ys[m // q - 1], t3neg(x))
            if not any(d) or not gcd1(d, m, t):
                ok = False
        if ok:
            return t
    return None


def gcd1(a, m, t):
    p = [2] + [0] * (m - 1) + [1]
    p[t] = (p[t] + 1) % 3
    r0, r1 = p, list(a)

    def trim(x):
        while x and x[-1] == 0:
            x.pop()
        return x
    r1 = trim(r1)
    while r1:
        r = list(r0)
        while len(r) >= len(r1):
            k = r[-1] * r1[-1] % 3
            o = len(r) - len(r1)
            for j, y in enumerate(r1):
                r[o + j] = (r[o + j] - k * y) % 3
            r = trim(r)
        r0, r1 = r1, r
    return len(r0) == 1


TRI = {2: 1, 3: 2, 5: 4, 7: 5, 11: 9, 13: 12, 17: 16, 19: 17, 23: 20, 25: 22}   # checked by irr3 when absent
_tri = {}


def trinomial(m):
    if m not in _tri:
        _tri[m] = irr3(m)
    return _tri[m]


BIGTRI = {63: 26, 64: None, 65: None, 97: 12, 127: None}


def c16(rnd, big):
    out = []
    for m in [2, 3, 4, 5, 7, 11, 13, 31, 32, 61, 63, 64, 65, 97, 193, 239] + ([127, 128, 129] if big else []):
        t = {97: 12, 193: 12, 239: 24}.get(m) or trinomial(m)
        if t is None:
            continue
        F = GF3m(m, t)
        edge = [F.zero, F.one, F.neg(F.one), (0,) * (m - 1) + (1,), (0,) * (m - 1) + (2,), (1,) * m, (2,) * m]
        if m > 1:
            edge += [(0, 1) + (0,) * (m - 2), tuple((i % 3) for i in range(m))]
        edge = list(dict.fromkeys(edge))
        vals = edge + [F.rnd(rnd) for _ in range(4)]
        c = Case("GF(3^%d), x^%d + x^%d + 2" % (m, m, t))
        c("gf3m F %d %d" % (m, t), "el F a b c d")
        n = 16 * F.len
        E = lambda v: "%d %d %s" % (n, n, F.enc(v).hex())
        c.q("order F", str(3 ** m))
        for a in vals:
            c.q("frombytes a %s" % F.enc(a).hex(), str(n)).q("tobytes a", E(a)).q("is0 a", str(int(a == F.zero))).q("is1 a", str(int(a == F.one)))
            for d in ("d", "a"):
                def op(cmd, want):
                    c("set d a")
                    c(cmd.replace("$", "d").replace("@", "d" if d == "a" else "a")).q("tobytes d", E(want))
                op("neg $ @", F.neg(a))
                op("cubic $ @", F.mul(a, F.mul(a, a)))
                op("square $ @", F.mul(a, a))
                op("double $ @", F.add(a, a))
                op("set $ @", a)
                if any(a):
                    op("invert $ @", F.inv(a))
                for e in (0, 1, 2, 3, 5, 8, 27, 1000, 3 ** m - 2, 3 ** m - 1, 3 ** m):
                    if e < 3000 or m <= 32:
                        op("powz $ @ %d" % e, F.pw(a, e))
            if m % 2:
                c("mul d a a", "sqrt c d", "mul c c c").q("cmp c d", "0")
            for b in rnd.sample(vals, min(len(vals), 5)):
                c.q("frombytes b %s" % F.enc(b).hex(), str(n))
                c("add c a b").q("tobytes c", E(F.add(a, b)))
                c("sub_ c a b").q("tobytes c", E(F.add(a, F.neg(b))))
                c("mul c a b").q("tobytes c", E(F.mul(a, b))).q("cmp a b", str(int(a != b)))
                if any(b):
                    c("div c a b").q("tobytes c", E(F.mul(a, F.inv(b))))
                c("set c a", "add c c b").q("tobytes c", E(F.add(a, b)))
                c("set c a", "sub_ c b c").q("tobytes c", E(F.add(b, F.neg(a))))
                c("set c a", "mul c c b").q("tobytes c", E(F.mul(a, b)))
                c("set c a", "mul c b c").q("tobytes c", E(F.mul(a, b)))
                c("set c a", "mul c c c").q("tobytes c", E(F.mul(a, a)))
                c("set c a", "add c c c").q("tobytes c", E(F.add(a, a)))
                c("set c a", "sub_ c c c").q("tobytes c", E(F.zero))
                c.q("tobytes a", E(a)).q("tobytes b", E(b))
        for sd in range(3):
            c("seed %d" % sd, "random a").q("outstr a 10", lambda s, F=F: True if F.words(bytes.fromhex(s.split()[1]).decode()) is not None else "not an element")
        for _ in range(6):
            # any bytes decode to an element
            raw = bytes(rnd.getrandbits(8) for _ in range(n)).hex()
            c.q("frombytes a %s" % raw, str(n)).q("outstr a 10", lambda s, F=F: True if F.words(bytes.fromhex(s.split()[1]).decode()) is not None else "not an element")
        out.append(c)
        # extensions
        if m in (3, 5, 7, 13, 63, 65, 97):
            out += ext3(F, rnd)
    out += eta(rnd, big)
    return out


class Ext:
    def __init__(self, base, n, kind):
        self.base, self.n = base, n
        self.kind = kind
        self.zero = (base.zero,) * n
        self.one = (base.one,) + (base.zero,) * (n - 1)

    def add(self, a, b): return tuple(self.base.add(x, y) for x, y in zip(a, b))
    def neg(self, a): return tuple(self.base.neg(x) for x in a)

    def mul(self, a, b):
        B = self.base
        r = [B.zero] * (2 * self.n - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = B.add(r[i + j], B.mul(x, y))
        for i in range(2 * self.n - 2, self.n - 1, -1):
            v = r[i]
            if self.kind == 2:          # x^2 = -1
                r[i - 2] = B.add(r[i - 2], B.neg(v))
            else:                       # x^3 = x + 1
                r[i - 2] = B.add(r[i - 2], v)
                r[i - 3] = B.add(r[i - 3], v)
        return tuple(r[:self.n])

    def rnd(self, r): return tuple(self.base.rnd(r) for _ in range(self.n))

    def leaves(self, a):
        if isinstance(self.base, Ext):
            return [z for x in a for z in self.base.leaves(x)]
        return list(a)


def setext(c, S, e, v, k=[0]):
    for i, x in enumerate(v):
        k[0] += 1
        nm = "s%d" % k[0]
        c("sub %s %s %d" % (nm, e, i))
        if isinstance(S.base, Ext):
            setext(c, S.base, nm, x, k)
        else:
            c.q("frombytes %s %s" % (nm, S.base.enc(x).hex()), str(16 * S.base.len))


def ext3(F, rnd):
    out = []
    K2 = Ext(F, 2, 2)
    K3 = Ext(F, 3, 3)
    K6 = Ext(K2, 3, 3)
    for nm, S, decl in (("GF(3^2m)", K2, ["gf32m K F"]), ("GF(3^3m)", K3, ["gf33m K F"]), ("GF(3^6m)", K6, ["gf32m Q F", "gf33m K Q"])):
        if nm != "GF(3^3m)" and F.m % 2 == 0 or nm == "GF(3^3m)" and F.m % 3 == 0:
            continue
        if F.m > 20 and nm == "GF(3^6m)" and F.m != 97:
            continue
        c = Case("%s over m=%d" % (nm, F.m))
        c("gf3m F %d %d" % (F.m, F.t), *decl)
        c("el K a b c d")

        def show(v):
            s = "".join("".join("%d," % w for w in words(F, x)) for x in S.leaves(v)).encode()
            return "%d %s" % (len(s), s.hex())
        vals = [S.zero, S.one, S.neg(S.one), (F.zero if S.base is F else K2.zero, F.one if S.base is F else K2.one) + S.zero[2:], S.rnd(rnd), S.rnd(rnd)]
        for a in vals:
            setext(c, S, "a", a)
            c.q("outstr a 10", show(a)).q("is0 a", str(int(a == S.zero))).q("is1 a", str(int(a == S.one)))
            for al in (0, 1):
                src = "d" if al else "a"
                def op(cmd, want):
                    c("set d a", cmd.replace("$", "d").replace("@", src)).q("outstr d 10", show(want))
                op("neg $ @", S.neg(a))
                op("square $ @", S.mul(a, a))
                op("cubic $ @", S.mul(a, S.mul(a, a)))
                op("double $ @", S.add(a, a))
                if a != S.zero:
                    c("set d a", "invert d %s" % src, "mul d d a").q("is1 d", "1")
            for b in vals:
                setext(c, S, "b", b)
                c("add c a b").q("outstr c 10", show(S.add(a, b)))
                c("sub_ c a b").q("outstr c 10", show(S.add(a, S.neg(b))))
                c("mul c a b").q("outstr c 10", show(S.mul(a, b))).q("cmp a b", str(int(a != b)))
                c("set c a", "mul c c b").q("outstr c 10", show(S.mul(a, b)))
                c("set c a", "mul c b c").q("outstr c 10", show(S.mul(a, b)))
                c("set c a", "mul c c c").q("outstr c 10", show(S.mul(a, a)))
                c("set c a", "sub_ c b c").q("outstr c 10", show(S.add(b, S.neg(a))))
                c.q("outstr a 10", show(a)).q("outstr b 10", show(b))
        out.append(c)
    return out


def words(F, x):
    a = sum((v == 1) << i for i, v in enumerate(x))
    b = sum((v == 2) << i for i, v in enumerate(x))
    M = (1 << 64) - 1
    return [(a >> 64 * i) & M for i in range(F.len)] + [(b >> 64 * i) & M for i in range(F.len)]


def eta_order(m):
    """order of y^2 = x^3 - x + 1 over F_3^m (trace recurrence from the 7 points over F3)"""
    t = 3 + 1 - 7
    a, b = 2, t
    for _ in range(m - 1):
        a, b = b, t * b - 3 * a
    return 3 ** m + 1 - b


def eta(rnd, big):
    out = []
    for m in (5, 7, 11, 13, 17, 19, 23, 25) + ((29, 31, 35, 37) if big else ()):
        t = trinomial(m)
        if t is None:
            continue
        N = eta_order(m)
        f = factor(N)
        for r in sorted(f):
            if r < 5 or f[r] > 1:
                continue
            txt = "type i\nm %d\nt %d\nn %d\nn2 %d\n" % (m, t, r, N // r)
            F = GF3m(m, t)
            c = Case("ternary pairing m=%d r=%d" % (m, r))
            c.q("pairing P %s" % hx(txt.encode()), "0").q("pr P", str(r))
            c("pel P G1 p q s u v", "pel P GT x y z w", "seed %d" % rnd.randrange(1000))
            c("random p", "random q", "random s")
            mem = {}

            def getpt(nm, want=None, mem=mem, F=F):
                def g(s):
                    mem[nm] = parse_pt(F, s)
                    P_ = mem[nm]
                    if P_ == 'bad' or not on3(F, P_):
                        return "not a point of the curve"
                    return True
                return g

            def sum_is(a, b, mem=mem, F=F):
                def g(s):
                    w = add3(F, mem[a], mem[b])
                    return True if parse_pt(F, s) == w else "not the sum"
                return g
            for nm in "pqs":
                c.q("outstr %s 10" % nm, getpt(nm))
                c("powz u %s %d" % (nm, r)).q("is1 u", "1")
            c("add u p q").q("outstr u 10", sum_is('p', 'q'))
            c("add u p p").q("outstr u 10", sum_is('p', 'p'))
            c("double u p").q("outstr u 10", sum_is('p', 'p'))
            c("neg v p").q("outstr v 10", getpt('v'))
            c("add u p v").q("is0 u", "1")
            c("sub_ u p v").q("outstr u 10", sum_is('p', 'p'))
            c("set u p", "add u u u").q("outstr u 10", sum_is('p', 'p'))
            c("set u p", "add u u q").q("outstr u 10", sum_is('p', 'q'))
            c("set u p", "add u q u").q("outstr u 10", sum_is('p', 'q'))
            c("set u p", "neg u u", "add u u p").q("is0 u", "1")
            c("set0 u", "add v u p").q("cmp v p", "0")
            c("add v p u").q("cmp v p", "0")
            c("add v u u").q("is0 v", "1")
            # pairing
            c("pair x p q P", "powz y x %d" % r).q("is1 y", "1")
            for k in (0, 1, 2, 3, r - 1, r, rnd.randrange(r), rnd.randrange(r)):
                c("mulz u p %d" % k, "pair y u q P", "powz z x %d" % k).q("cmp y z", "0")
                c("mulz u q %d" % k, "pair y p u P").q("cmp y z", "0")
            c("add u p s", "pair y u q P", "pair z s q P", "mul z z x").q("cmp y z", "0")
            c("add u q s", "pair y p u P", "pair z p s P", "mul z z x").q("cmp y z", "0")
            c("pair y q p P").q("cmp x y", "0")
            # a generator paired with itself
            c("pair y p p P")
            c.q("is0 p", lambda s, mem=mem: (mem.__setitem__('p0', s), True)[1])
            c.q("is1 y", lambda s, mem=mem: True if s.strip() == mem['p0'].strip() else "a generator pairs with itself to one")
            c("set0 u", "pair y u q P").q("is1 y", "1")
            c("pair y q u P").q("is1 y", "1")
            c("random x", "powz y x %d" % r).q("is1 y", "1")
            c("clear p q s u v x y z w", "pairingclear P")
            out.append(c)
    return out


def parse_pt(F, s):
    txt = bytes.fromhex(s.split()[1]).decode()
    if txt == 'O':
        return None
    w = txt.strip(',').split(',')
    if len(w) != 4 * F.len:
        return 'bad'
    x = F.words(",".join(w[:2 * F.len]))
    y = F.words(",".join(w[2 * F.len:]))
    return 'bad' if x is None or y is None else (x, y)


def on3(F, P_):
    if P_ is None:
        return True
    x, y = P_
    return F.mul(y, y) == F.add(F.add(F.mul(x, F.mul(x, x)), F.neg(x)), F.one)


def add3(F, A, B):
    if A is None: return B
    if B is None: return A
    (x1, y1), (x2, y2) = A, B
    if x1 == x2:
        if y1 != y2 or not any(y1):
            return None
        l = F.mul(F.neg(F.one), F.inv(F.add(y1, y1)))      # (3x^2 - 1)/2y
    else:
        l = F.mul(F.add(y2, F.neg(y1)), F.inv(F.add(x2, F.neg(x1))))
    x3 = F.add(F.mul(l, l), F.neg(F.add(x1, x2)))
    y3 = F.add(F.mul(l, F.add(x1, F.neg(x3))), F.neg(y1))
    return (x3, y3)


# ---------------------------------------------------------------- C17

def trace_n(q, t, n):
    a, b = 2, t
    for _ in range(n - 1):
        a, b = b, t * b - q * a
    return b if n else a


def c17(rnd, big):
    out = []
    c = Case("traces and orders over extensions")
    for q in (2, 3, 5, 7, 13, 101, 65537, next_prime(B64), next_prime(1 << 160)):
        b = int((4 * q) ** .5) if q < 1 << 50 else __import__('math').isqrt(4 * q)
        for t in sorted({0, 1, -1, 2, -2, b, -b, b // 2, -b // 3, rnd.randrange(-b, b + 1)}):
            if t * t > 4 * q:
                continue
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 24, 31) if q < 1 << 70 else (1, 2, 3, 6, 12):
                tn = trace_n(q, t, n)
                c.q("tracen %d %d %d" % (q, t, n), str(tn))
                c.q("orderextn %d %d %d" % (q, t, n), str(q ** n + 1 - tn))
    out.append(c)
    # orders against exhaustive counts
    for p in (5, 7, 11):
        for _ in range(3):
            E, pts = find_curve(p, rnd)
            t = p + 1 - len(pts)
            F2 = Quad(Fp(p), Fp(p).nqr())
            sq = {}
            for x in range(p):
                for y in range(p):
                    v = F2.mul((x, y), (x, y))
                    sq[v] = sq.get(v, 0) + 1
            n2 = 1
            for x in range(p):
                for y in range(p):
                    X = (x, y)
                    rhs = F2.add(F2.add(F2.mul(X, F2.mul(X, X)), F2.scal(E.a, X)), (E.b, 0))
                    n2 += sq.get(rhs, 0)
            c = Case("order over F_%d^2 counted, a=%d b=%d" % (p, E.a, E.b))
            c.q("orderextn %d %d 2" % (p, t), str(n2))
            out.append(c)
    # twist: coefficients give a curve with the opposite trace
    for p in (7, 11, 13, 101):
        E, pts = find_curve(p, rnd)
        c = Case("quadratic twist p=%d a=%d b=%d" % (p, E.a, E.b))
        decl(c, E)
        c("twist E")

        def tw(s, p=p, n=len(pts)):
            a, b = [int(x) for x in s.split()]
            E2 = Curve(Fp(p), a, b, 1)
            n2 = len(E2.points_brute())
            return True if n + n2 == 2 * p + 2 else "orders %d and %d" % (n, n2)
        c.q("curveab E", tw)
        out.append(c)
    # Hilbert class polynomials with known coefficients
    HC = {3: [0], 4: [-1728], 7: [3375], 8: [-8000], 11: [32768], 15: [-121287375, 191025], 19: [884736], 20: [-681472000, -1264000], 23: [12771880859375, -5151296875, 3491750],
          24: [14670139392, -4834944], 43: [884736000], 67: [147197952000], 163: [262537412640768000], 31: [1566028350940383, -58682638134, 39491307], 35: [-134217728000, 117964800]}
    for D, co in HC.items():
        c = Case("Hilbert class polynomial of -%d" % D)
        want = " ".join(str(x) for x in co) + " 1"
        c.q("hilbert %d" % D, lambda s, w=want: True if " ".join(s.split()[1:]) == w else "expected coefficients " + w)
        out.append(c)
    # generated sets
    hexd = lambda t: hx(t.encode())

    def gen(label, cmds, check):
        c = Case(label)
        c("seed %d" % rnd.randrange(10 ** 6))
        c(*cmds)
        c.q("paramout G", lambda s: check(params.fields(s)))
        c("pairingparam P G", "pel P G1 g u", "pel P G2 h v", "pel P GT x y z")
        c("random g", "random h", "pair x g h P")
        c.q("is0 g", ANY)
        for k in (2, 3, rnd.randrange(10 ** 6)):
            c("mulz u g %d" % k, "pair y u h P", "powz z x %d" % k).q("cmp y z", "0")
            c("mulz v h %d" % k, "pair y g v P").q("cmp y z", "0")
        out.append(c)
        return c

    def fail_unless(*conds):
        for ok, what in conds:
            if not ok:
                return what
        return True

    def ck_a(f, rb, qb):
        q, h, r, e2, e1, s1, s0 = [int(f[k]) for k in ('q', 'h', 'r', 'exp2', 'exp1', 'sign1', 'sign0')]
        return fail_unless((is_prime(q), "q composite"), (is_prime(r), "r composite"), (q + 1 == h * r, "q+1 != hr"), (q % 4 == 3, "q mod 4"), (h % 12 == 0 or h % 4 == 0, "h mod 4"),
                           (r == 2 ** e2 + s1 * 2 ** e1 + s0, "r is not the Solinas number"), (abs(r.bit_length() - rb) <= 1, "size of r"), (q.bit_length() <= qb + 1, "size of q"))
    for rb, qb in ((10, 20), (20, 40), (40, 100), (80, 160), (160, 512)):
        gen("generated type A %d/%d" % (rb, qb), ["gena G %d %d" % (rb, qb)], lambda f, rb=rb, qb=qb: ck_a(f, rb, qb))

    def ck_a1(f, n):
        p, nn, l = int(f['p']), int(f['n']), int(f['l'])
        return fail_unless((is_prime(p), "p composite"), (nn == n, "n changed"), (p + 1 == l * n, "p+1 != ln"), (p % 4 == 3, "p mod 4"))
    for n in (7, 10007 * 10009, next_prime(1 << 60) * next_prime(1 << 62)):
        gen("generated type A1 n=%d" % n, ["gena1 G %d" % n], lambda f, n=n: ck_a1(f, n))

    def ck_e(f, rb, qb):
        q, r, h, a, b, e2, e1, s1, s0 = [int(f[k]) for k in ('q', 'r', 'h', 'a', 'b', 'exp2', 'exp1', 'sign1', 'sign0')]
        return fail_unless((is_prime(q), "q composite"), (is_prime(r), "r composite"), (r == 2 ** e2 + s1 * 2 ** e1 + s0, "r is not the Solinas number"),
                           (q == h * r * r + 1, "q != h r^2 + 1"), ((q - 1) % r == 0, "embedding degree"), (abs(r.bit_length() - rb) <= 1, "size of r"))
    for rb, qb in ((20, 60), (40, 100), (160, 1024)) if big else ((20, 60), (40, 100)):
        gen("generated type E %d/%d" % (rb, qb), ["gene G %d %d" % (rb, qb)], lambda f, rb=rb, qb=qb: ck_e(f, rb, qb))

    def ck_f(f, bits):
        q, r, b, beta, a0, a1 = [int(f[k]) for k in ('q', 'r', 'b', 'beta', 'alpha0', 'alpha1')]
        F2 = Quad(Fp(q), beta % q)
        al = (a0 % q, a1 % q)
        cs = [(is_prime(q), "q composite"), (is_prime(r), "r composite"), (any(r > 0 and pow(q, 12, r) == 1 for _ in (0,)), "embedding degree"),
              (all(pow(q, d, r) != 1 for d in (1, 2, 3, 4, 6)), "embedding degree too small"), (pow(beta, (q - 1) // 2, q) == q - 1, "beta is a square"), (abs(q.bit_length() - bits) <= 2, "size of q")]
        for p_ in (2, 3):
            cs.append((F2.pw(al, (q * q - 1) // p_) != F2.one, "alpha is a %s" % ("square" if p_ == 2 else "cube")))
        x2 = q + 1 - r                       # trace
        cs.append((4 * q - x2 * x2 >= 0, "order out of the Hasse interval"))
        # r points on y^2 = x^3 + b: r*P = O for a few P
        E = Curve(Fp(q), 0, b, r)
        n = 0
        x = 1
        while n < 3:
            y = sqrt_fp(E.rhs(x), q)
            if y is not None:
                cs.append((E.mul(r, (x, y)) is None, "the curve does not have order r"))
                n += 1
            x += 1
        return fail_unless(*cs)
    for bits in (20, 40, 80, 160):
        gen("generated type F %d" % bits, ["genf G %d" % bits], lambda f, bits=bits: ck_f(f, bits))
    # complex multiplication searches, and the parameters built from them
    for D in (9563, 19, 43, 67, 91, 163, 3 * 17, 4 * 13, 4 * 43, 59619, 62003):
        c = Case("MNT search D=%d" % D)
        c.slow = True
        c("cmd_ %d 200 1000" % D)
        c.after = lambda lines, D=D: all_cm(lines, 6, D)
        out.append(c)
        c = Case("Freeman search D=%d" % D)
        c.slow = True
        c("cmg_ %d 300 1000" % D)
        c.after = lambda lines, D=D: all_cm(lines, 10, D)
        out.append(c)
    for cmd, k, sets in (("gend", 6, [(9563, 2094476214847295281570670320144695883131009753607350517892357, 2094476214847295281570670320143248652598286201895740019876423, 1122591, 1865751832009427548920907365321162072917283500309320153)]),
                         ("geng", 10, [] and [(4543003, 2729965301220268775324155006899579152624711673059392691757592664443483, 2729965301220268775324155006899579048126571953344405311422728673598901, 3131, 871914819936208487807139893612130005789387401259790901125112958671)])):
        for D, q, n, h, r in sets:
            gen("generated type %s from D=%d" % (cmd[3].upper(), D), ["%s G %d %d %d %d %d %d" % (cmd, D, q, n, h, r, k)], lambda f, k=k, q=q, n=n, h=h, r=r: ck_cmp(f, k, q, n, h, r))
    for t in params.listed(params.D)[:9]:
        pass
    # ternary sets
    for size in (100, 150, 151, 206, 259, 316, 376, 430, 484, 552, 644, 696, 803, 892):
        c = Case("generated type I %d" % size)
        c("geni G %d" % size)
        c.q("paramout G", lambda s, size=size: ck_i(params.fields(s), size))
        out.append(c)
    gen("generated type I pairing", ["geni G 150"], lambda f: ck_i(f, 150))
    return out


def all_cm(lines, k, D):
    for l in lines:
        w = l.split()
        if not w or w[0] != 'D':
            return "unexpected output %r" % l
        f = dict(zip(w[::2], w[1::2]))
        q, n, h, r = int(f['q']), int(f['n']), int(f['h']), int(f['r'])
        t = q + 1 - n
        if int(f['D']) != D or int(f['k']) != k: return "wrong D or k: " + l
        if not is_prime(q): return "q composite: " + l
        if not is_prime(r): return "r composite: " + l
        if h * r != n: return "hr != n: " + l
        if r > k and pow(q, k, r) != 1 or r > k and any(pow(q, d, r) == 1 for d in range(1, k)): return "embedding degree: " + l
        v = 4 * q - t * t
        if v <= 0 or v % D: return "CM equation: " + l
        s = __import__('math').isqrt(v // D)
        if s * s != v // D: return "CM equation: " + l
    return True


def ck_cmp(f, k, q, n, h, r):
    g = {x: int(f[x]) for x in ('q', 'n', 'h', 'r', 'a', 'b', 'nk', 'hk', 'nqr')}
    if (g['q'], g['n'], g['h'], g['r']) != (q, n, h, r):
        return "curve numbers changed"
    nk = q ** k + 1 - trace_n(q, q + 1 - n, k)
    if g['nk'] != nk or g['hk'] * r * r != nk:
        return "nk or hk"
    if pow(g['nqr'], (q - 1) // 2, q) != q - 1:
        return "nqr is a square"
    E = Curve(Fp(q), g['a'], g['b'], n)
    x = m = 0
    while m < 3:
        x += 1
        y = sqrt_fp(E.rhs(x), q)
        if y is not None:
            if E.mul(n, (x, y)) is not None:
                return "the curve does not have order n"
            m += 1
    return True


def ck_i(f, size):
    m, t, n, n2 = int(f['m']), int(f['t']), int(f['n']), int(f['n2'])
    if not is_prime(n): return "n composite"
    if n * n2 != eta_order(m): return "n n2 is not the order of the curve"
    if n.bit_length() < size: return "n has fewer than %d bits" % size
    return True


# ---------------------------------------------------------------- C18

def c18(rnd, big):
    out = []
    for k in range(60 if not big else 400):
        c = Case("container sequence %d" % k)
        arrs = {'A': [], 'B': []}
        c("darray A", "darray B")
        for _ in range(rnd.choice((5, 40, 120))):
            n = rnd.choice('AAAB')
            a = arrs[n]
            o = rnd.randrange(17)
            v = rnd.randrange(1, 12)
            if o < 6 or (k % 3 == 0 and o < 9):
                c("da %s append %d" % (n, v))
                a.append(v)
            elif o == 6 and a:
                i = rnd.choice((0, len(a) - 1, rnd.randrange(len(a))))
                c("da %s removeindex %d" % (n, i))
                del a[i]
            elif o == 7 and a:
                v = rnd.choice(a)
                c("da %s remove %d" % (n, v))
                a.remove(v)
            elif o == 8 and a:
                c("da %s removelast" % n)
                a.pop()
            elif o == 9:
                c.q("da %s indexof %d" % (n, v), str(a.index(v) if v in a else -1))
            elif o == 10 and rnd.random() < .3:
                c("da %s removeeven" % n)
                a[:] = [x for x in a if x % 2]
            elif o == 11:
                w = [x for x in a if x > v]
                c.q("da %s attest %d" % (n, v), str(w[0] if w else 0))
            elif o == 12:
                d = 'B' if n == 'A' else 'A'
                c("da %s copy %s" % (n, d))
                arrs[d][:] = a
            elif o == 13:
                c.q("da %s foreach2 9" % n, "".join("%d:9 " % x for x in a))
            elif o == 14 and rnd.random() < .2:
                c("da %s removeall" % n)
                a.clear()
            elif o == 15 and a:
                i = rnd.randrange(len(a))
                c.q("da %s at %d" % (n, i), str(a[i])).q("da %s last" % n, str(a[-1]))
            c.q("da %s count" % n, str(len(a))).q("da %s isempty" % n, str(int(not a)))
            if rnd.random() < .3:
                c.q("da %s foreach" % n, "".join("%d " % x for x in a))
        for n, a in arrs.items():
            c.q("da %s foreach" % n, "".join("%d " % x for x in a))
            c.q("da %s foreach3" % n, "".join("%d " % x for x in a)).q("da %s foreach4" % n, "".join("%d " % x for x in a))
            c("da %s clear" % n)
        out.append(c)
    keys = ["@", "a", "aa", "aaa", "ab", "A", "b", "q", "r", "n", "nk", "hk", "h", "coeff0", "coeff1", "coeff", "type", "exp1", "exp2", "exp", "x" * 200, "x" * 201]
    for k in range(40 if not big else 200):
        c = Case("symbol table sequence %d" % k)
        d = {}
        c("symtab T")
        for _ in range(rnd.choice((4, 30, 80))):
            w = rnd.choice(keys)
            o = rnd.randrange(4)
            if o < 2:
                v = rnd.randrange(1, 1000)
                c("st T put %s %d" % (w, v))
                d[w] = v
            elif o == 2:
                c.q("st T has %s" % w, str(int(w in d)))
            else:
                c.q("st T at %s" % w, str(d.get(w, 0)))
        for w in keys:
            c.q("st T has %s" % w, str(int(w in d))).q("st T at %s" % w, str(d.get(w, 0)))
        c.q("st T sum", "%d %d" % (len(d), sum(d.values())))
        c("st T clear")
        out.append(c)
    return out


# ---------------------------------------------------------------- C19

def c19(rnd, big):
    out = []
    # subgroups of prime order in F_p^*
    for p, r in ((7, 3), (11, 5), (23, 11), (83, 41), (227, 113), (2027, 1013), (20327, 10163)):
        if not (is_prime(p) and is_prime(r) and (p - 1) % r == 0):
            continue
        g = next(x for x in (pow(y, (p - 1) // r, p) for y in range(2, p)) if x != 1)
        for sd in range(5):
            c = Case("discrete logarithms of order %d in F_%d, seed %d" % (r, p, sd))
            c("fp F naive %d" % p, "fp Z default %d" % r, "el F g h t", "el Z x", "seed %d" % sd, "setz g %d" % g)
            for k in sorted({0, 1, 2, r - 1, r - 2, rnd.randrange(r), rnd.randrange(r)}):
                h = pow(g, k, p)
                c("setz h %d" % h)
                for alg in (["dlogbf"] if r < 2000 else []) + ["dlogrho"]:
                    c("%s x g h" % alg, "powzn t g x").q("cmp t h", "0").q("toz x", str(k % r)).q("val g h", "%d %d" % (g, h))
            out.append(c)
    # logarithms past the sizes of short integers
    for r0 in (66000, 140000) if not big else (66000, 140000, 300000, 1100000):
        r = next_prime(r0)
        p = r * 2 + 1
        while not is_prime(p):
            p += 2 * r
        g = next(x for x in (pow(y, (p - 1) // r, p) for y in range(2, p)) if x != 1)
        c = Case("discrete logarithms of order %d in F_%d" % (r, p))
        c("fp F naive %d" % p, "fp Z default %d" % r, "el F g h t", "el Z x", "setz g %d" % g)
        for k in (r - 1, r - rnd.randrange(2, 300)):
            for alg in ("dlogbf", "dlogrho"):
                c("setz h %d" % pow(g, k, p), "%s x g h" % alg, "powzn t g x").q("cmp t h", "0").q("toz x", str(k))
        out.append(c)
    # tiny orders, where walks collide at once
    for p, r in ((3, 2), (7, 2), (7, 3), (13, 3), (11, 5)):
        g = next(x for x in (pow(y, (p - 1) // r, p) for y in range(2, p)) if x != 1)
        for sd in range(20 if r > 2 else 0):
            c = Case("discrete logarithms of tiny order %d in F_%d, seed %d" % (r, p, sd))
            c("fp F naive %d" % p, "fp Z naive %d" % r, "el F g h t", "el Z x", "seed %d" % sd, "setz g %d" % g)
            for k in range(r):
                c("setz h %d" % pow(g, k, p), "dlogrho x g h").q("toz x", str(k))
                c("dlogbf x g h").q("toz x", str(k))
            out.append(c)
    # curves of prime order
    for p in (13, 101, 499):
        E, pts = find_curve(p, rnd, lambda n: n > 3 and is_prime(n))
        n = len(pts)
        G = next(P_ for P_ in pts if P_ is not None)
        for sd in range(4):
            c = Case("discrete logarithms on a curve of order %d, seed %d" % (n, sd))
            E.order = n
            decl(c, E)
            c("el E g h t", "fp Z default %d" % n, "el Z x", "seed %d" % sd)
            E.set(c, "g", G)
            for k in sorted({0, 1, n - 1, n // 2, rnd.randrange(n)}):
                c("mulz h g %d" % k, "dlogrho x g h", "mulzn t g x").q("cmp t h", "0").q("toz x", str(k))
                c("dlogbf x g h").q("toz x", str(k))
            out.append(c)
    # orders that are not prime but handled
    return out


# ---------------------------------------------------------------- C20

def c20(rnd, big):
    """nothing allocated remains: every operation twice (the second time nothing is cached), then everything cleared"""
    out = []

    def leak(c, *cmds):
        for k in cmds:
            c(k, k, "memmark", k)
            c.q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
    for S in field_zoo(rnd, big):
        c = Case("storage of arithmetic in %s" % desc(S))
        c("memmark")
        decl(c, S)
        N = S.name
        c("el %s a b d z e" % N, "seed 5", "set0 z", "set1 e")
        S.set(c, "a", S.rnd(rnd))
        S.set(c, "b", next(v for v in (S.rnd(rnd) for _ in range(99)) if v != S.zero))
        ops = ["add d a b", "sub_ d a b", "mul d a b", "neg d a", "double d a", "square d a", "halve d a", "mulz d a 123456789123456789123", "mulsi d a -7", "powz d a 65537", "powz d a 0",
               "powz d b 12345678901234567890", "invert d b", "div d a b", "set d a", "set0 d", "set1 d", "setz d 123456789123456789123456789123456789", "setsi d -5",
               "add d z a", "add d a z", "mul d z a", "mul d a z", "sub_ d a a", "neg d z", "double d z", "halve d z", "square d z", "mul d e a", "invert d e",
               "random d", "hash d 00112233445566778899", "rt a d", "rt z d"]
        leak(c, *ops)
        for x in ('a', 'b', 'z', 'e'):
            for k in ("is0 %s", "is1 %s", "cmp %s b", "issqr %s", "sgn %s") if isinstance(S, Fp) else ("is0 %s", "is1 %s", "cmp %s b", "issqr %s"):
                k = k % x
                c.q(k, ANY).q(k, ANY)
                c("memmark").q(k, ANY).q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        for k in ("outstr a 10", "snprint a 300", "rtstr d a 10", "toz a" if isinstance(S, Fp) else "len a", "setstr d 10 3132"):
            c.q(k, ANY).q(k, ANY)
            c("memmark").q(k, ANY).q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        c("el %s s" % N, "square s a")
        leak(c, "sqrt d s", "sqrt d z")
        c("square s b")
        leak(c, "sqrt d s")
        c("pow2 d a 77 b 99", "pow3 d a 3 b 5 e 7")
        leak(c, "pow2 d a 77 b 99", "pow3 d a 3 b 5 e 7", "pow2 d a 0 b 0", "pow3 d a 0 b 0 z 0")
        c("ppinit t a", "pppow d t 65537", "pppow d t 0", "ppclear t", "memmark", "ppinit t a", "pppow d t 65537", "pppow d t 0", "ppclear t")
        c.q("memdelta", lambda s: True if int(s) == 0 else "table exponentiation leaves %s blocks" % s)
        out.append(c)
        # whole life
        c = Case("whole life of %s" % desc(S))
        c("seed 9", "memmark")
        decl(c, S)
        c("el %s a b d" % N, "random a", "random b", "mul d a b", "add d d a", "square d d")
        c("clear a b d")
        for nm, cl in lifetimes(S):
            c(cl)
        c.q("memdelta", lambda s: True if int(s) == 0 else "%s blocks remain after clearing everything" % s)
        out.append(c)
    # polynomials
    for p in (7, 101):
        c = Case("storage of polynomials over F_%d" % p)
        F = Fp(p, 'default')
        F.declare(c)
        c("poly R F", "el R a b d z", "el F k", "setz k 3", "polyrandmonic a 5", "polyrandmonic b 3", "seed 3")
        leak(c, "add d a b", "sub_ d a b", "mul d a b", "sub_ d a a", "mul d z a", "add d a z", "neg d a", "double d a", "set d a", "set0 d", "set1 d", "polyconstmul d k a", "setz d 0", "setz d 5",
             "set d a", "polyset1 d 9", "polyset0 d 9", "polyset0 d 0", "square d a", "mulsi d a 0", "mulz d a %d" % p)
        for k in ("polyisirred a", "polyisirred b", "polyfindroot k a", "cmp a b", "cmp a a", "is0 a", "is0 z", "is1 a", "outstr a 10", "polydeg a"):
            c.q(k, ANY).q(k, ANY)
            c("memmark").q(k, ANY).q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        out.append(c)
    # integers and lists
    c = Case("storage of integers")
    c("memmark", "z Z", "el Z a b d", "setz a -123456789012345678901234567890", "setz b 77")
    for k in ("add d a b", "mul d a b", "sub_ d a a", "neg d a", "powz d b 9", "powz d a 0", "mulz d a 55", "mulsi d a 3", "div d a b", "rt a d", "halve d a", "square d a", "set d a", "invert d d"):
        if k == "invert d d":
            continue
        c(k, k)
    for k in ("outstr a 10", "snprint a 50", "rtstr d a 16", "cmp a b", "is1 a", "tobytes a"):
        c.q(k, ANY)
    c("clear a b d", "fieldclear Z").q("memdelta", "0")
    out.append(c)
    c = Case("storage of nested lists")
    c("memmark", "multizfield M", "el M d")
    mlist(c, [0], "a", [[1, 2], 3, [4, [5, 6]]])
    mlist(c, [50], "b", [7, [8, 9]])
    for k in ("add d a b", "mul d a b", "sub_ d a b", "neg d a", "mulz d a 55", "mulsi d a 3", "set d a", "setz d 4", "setmultiz d a", "add d d d", "set d a", "mul d d d", "set1 d", "set0 d", "setsi d 4"):
        c(k, k)
    for k in ("outstr a 10", "snprint a 50", "cmp a b", "cmp b a", "is1 a"):
        c.q(k, ANY)
    c("clear a b d", "fieldclear M").q("memdelta", "0")
    out.append(c)
    # curves
    for p in (11, 101, next_prime(B64, p3)):
        c = Case("storage of curve arithmetic over F_%d" % p)
        c("memmark")
        F = Fp(p, 'default')
        F.order = p
        if p < 1000:
            E, pts = find_curve(p, rnd)
        else:
            E = Curve(F, 1, 0, p + 1)
        decl(c, E)
        c("el E g h d o e", "seed 4", "random g", "random h", "set0 o", "neg e g")
        leak(c, "add d g h", "add d g g", "double d g", "add d g o", "add d o g", "add d o o", "double d o", "add d g e", "sub_ d g h", "sub_ d g g", "neg d g", "neg d o", "mulz d g 1234567", "mulz d g 0",
             "mulz d o 5", "mulz d g %d" % (E.order if E.order else 1), "powz d g 77", "random d", "hash d 00112233", "rt g d", "rt o d", "rtc g d", "rtx g d", "set d g", "set d o", "set0 d",
             "pow2 d g 5 h 7", "pow3 d g 5 h 7 e 9")
        for k in ("cmp g h", "cmp g o", "cmp o o", "cmp g g", "is0 g", "outstr g 10", "outstr o 10", "rtstr d g 10", "rtstr d o 10", "snprint g 9", "setstr d 10 5b312c2032", "issqr g"):
            c.q(k, ANY).q(k, ANY)
            c("memmark").q(k, ANY).q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        c("elarr E u 3", "elarr E v 3", "elarr E w 3")
        for i in range(3):
            c("random u%d" % i, "set v%d u%d" % (i, i))
        c("set0 v1", "neg v2 u2")
        leak(c, "multiadd w u v 3", "multidouble w u 3", "multidouble w v 3")
        out.append(c)
        c = Case("whole life of a curve over F_%d" % p)
        c("seed 4", "memmark")
        decl(c, E)
        c("el E g d", "random g", "mulz d g 5", "clear g d", "fieldclear E")
        for e in declared_elements(c):
            if e not in ('g', 'd'):
                c("clear %s" % e)
        c("fieldclear F").q("memdelta", lambda s: True if int(s) == 0 else "%s blocks remain after clearing everything" % s)
        out.append(c)
    # pairings
    texts = [params.type_a(6)[0][3], params.type_a1((15,))[0][3], params.listed(params.D)[0], params.listed(params.D)[2], params.listed(params.G)[0], params.listed(params.F_)[0], params.listed(params.E_)[0]]
    t5 = trinomial(7)
    texts.append("type i\nm 7\nt %d\nn %d\nn2 %d\n" % (t5, max(factor(eta_order(7))), eta_order(7) // max(factor(eta_order(7)))))
    for t in texts:
        f = params.fields(t)
        ty = f['type']
        h = hx(t.encode())
        c = Case("storage of a pairing of type %s" % ty)
        c("seed 6")
        c.q("pairing P %s" % h, "0")
        c("pel P G1 a b oo", "pel P G2 x y", "pel P GT s t u", "pel P Zr k", "random a", "random b", "random x", "random y", "set0 oo", "random k", "pair s a x P", "pair t b y P")
        leak(c, "pair s a x P", "pair s oo x P", "random a", "random x", "random s", "mul u s t", "invert u s", "div u s t", "powzn u s k", "mulzn b a k", "powz u s 0", "powz u s 12345")
        if ty != 'i':
            leak(c, "hash s 00112233445566778899")
            if int(f.get('q', f.get('p', 0))) >> 40:
                leak(c, "hash a 00112233445566778899", "hash x 00112233445566778899")
        for q in ("is1 s", "cmp s t", "symmetric P") + (("outstr s 10", "outstr a 10") if ty != 'i' else ("outstr a 10",)):
            c.q(q, ANY).q(q, ANY)
            c("memmark").q(q, ANY).q("memdelta", lambda s, k=q: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        for q in ("coddh a b x y P",):
            if ty in ('d', 'g', 'a', 'a1', 'f', 'e'):
                c.q(q, ANY).q(q, ANY)
                c("memmark").q(q, ANY).q("memdelta", lambda s, k=q: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
        # small groups meet their exceptional values often
        c("memmark")
        N = int(f.get('q', f.get('p', 0))) or 3 ** int(f.get('m', 0))
        for i in range(2500 if N < 1 << 12 else 300 if N < 1 << 30 else 10):
            c("random s")
            if i % 4 == 0:
                c("random a", "random x", "pair t a x P", "hash s %08x" % i if ty != 'i' else "random s")
        c.q("memdelta", lambda s: True if int(s) == 0 else "random values and pairings of them leave %s blocks" % s)
        c("pairpp pp a P", "pairppapply s pp x", "pairppclear pp")
        c("memmark", "pairpp pp a P", "pairppapply s pp x", "pairppapply t pp y", "pairppclear pp").q("memdelta", lambda s: True if int(s) == 0 else "preprocessing leaves %s blocks" % s)
        c("memmark", "pairpp pp oo P", "pairppapply s pp x", "pairppclear pp").q("memdelta", lambda s: True if int(s) == 0 else "preprocessing the identity leaves %s blocks" % s)
        c("pelarr P G1 m 3", "pelarr P G2 n 3")
        for i in range(3):
            c("random m%d" % i, "random n%d" % i)
        leak(c, "prodpair s m n 3", "prodpair s m n 1")
        c("set0 m1")
        leak(c, "prodpair s m n 3")
        opts = {'a': ["miller affine", "miller projective"], 'a1': ["miller affine", "miller projective"], 'd': ["miller affine", "miller projective"], 'g': ["miller affine", "miller projective"] if False else [],
                'e': [], 'f': [], 'i': []}
        if ty == 'a':
            opts['a'] = []
        out.append(c)
        c = Case("whole life of a pairing of type %s" % ty)
        c("seed 6", "memmark")
        c.q("pairing P %s" % h, "0")
        c("pel P G1 a", "pel P G2 x", "pel P GT s", "pel P Zr k", "random a", "random x", "pair s a x P", "random k", "powzn s s k", "pairpp pp a P", "pairppapply s pp x", "pairppclear pp", "random s")
        c("clear a x s k", "pairingclear P").q("memdelta", lambda s: True if int(s) == 0 else "%s blocks remain after clearing everything" % s)
        c("memmark").q("param q %s" % h, "0").q("paramout q", ANY)
        c("paramclear q").q("memdelta", lambda s: True if int(s) == 0 else "parameters leave %s blocks" % s)
        # rejected parameters
        for drop in list(f):
            tt = "".join("%s %s\n" % kv for kv in f.items() if kv[0] != drop)
            c("memmark").q("param q %s" % hx(tt.encode()), ANY).q("memdelta", lambda s, d=drop: True if int(s) == 0 else "parameters without %s leave %s blocks" % (d, s))
        out.append(c)
    # generators and searches
    for cmds in (["gena G 10 20"], ["gena1 G 77"], ["gene G 20 60"], ["genf G 20"], ["geni G 100"], ["gend G 9563 2094476214847295281570670320144695883131009753607350517892357 2094476214847295281570670320143248652598286201895740019876423 1122591 1865751832009427548920907365321162072917283500309320153 6"]):
        c = Case("storage of generation: %s" % cmds[0][:30])
        c("seed 2", *cmds)
        c("paramclear G", "memmark", *cmds)
        c("paramclear G").q("memdelta", lambda s: True if int(s) == 0 else "generation leaves %s blocks" % s)
        out.append(c)
    for cmd in ("hilbert 23", "hilbert 163", "tracen 7 2 5", "orderextn 7 2 5", "trialdiv 360360 0", "mpzhash 1000003 00112233445566", "mpzrandom 1000", "mpzrandomb 33", "pbcmpzsetstr 10 313233"):
        c = Case("storage of %s" % cmd)
        c("seed 1").q(cmd, ANY).q(cmd, ANY)
        c("memmark").q(cmd, ANY).q("memdelta", lambda s: True if int(s) == 0 else "leaves %s blocks" % s)
        out.append(c)
    for cmd in ("cmd_ 43 120 1000", "cmg_ 43 200 1000", "cmd_ 9563 200 1"):
        c = Case("storage of %s" % cmd)
        c.after = lambda lines: True if lines and lines[-1].strip() == '0' else "search leaves %s blocks" % lines[-1]
        c.slow = True
        c(cmd, "memmark", cmd, "memdelta")
        out.append(c)
    c = Case("storage of discrete logarithms")
    c("seed 3", "fp F naive 227", "fp Z default 113", "el F g h", "el Z x", "setz g %d" % pow(2, 2, 227), "setz h %d" % pow(4, 57, 227))
    for k in ("dlogbf x g h", "dlogrho x g h"):
        c(k, "memmark", k, k).q("memdelta", lambda s, k=k: True if int(s) == 0 else "%s leaves %s blocks" % (k, s))
    out.append(c)
    # containers
    c = Case("storage of containers")
    c("memmark", "darray A", "darray B")
    for i in range(40):
        c("da A append %d" % i)
    c("da A copy B", "da B removeeven", "da A removeindex 3", "da A remove 5", "da A removeall", "da A append 4", "da A clear", "da B clear", "symtab T")
    for i in range(30):
        c("st T put k%d %d" % (i % 20, i))
    c("st T clear").q("memdelta", "0")
    out.append(c)
    # ternary fields
    c = Case("storage of ternary fields")
    c("seed 3", "memmark", "gf3m F 7 %d" % trinomial(7), "el F a b d", "random a", "random b")
    for k in ("add d a b", "sub_ d a b", "mul d a b", "neg d a", "cubic d a", "invert d b", "sqrt d a", "powz d a 55", "rt a d", "set d a", "mul d d d"):
        c(k)
    c("gf32m Q F", "gf33m K Q", "el K p q", "random p", "random q", "mul p p q", "add p p q", "sub_ p p q", "neg p p", "cubic p p", "invert p q", "powz p p 7", "set0 p", "set1 p", "set p q")
    c("clear p q", "fieldclear K", "fieldclear Q", "clear a b d", "fieldclear F").q("memdelta", "0")
    out.append(c)
    return out


def declared_elements(c):
    o = []
    for cmd, _ in c.lines:
        w = cmd.split()
        if w and w[0] == 'el':
            o += w[2:]
    return list(dict.fromkeys(o))


def lifetimes(S):
    """commands that clear the fields (and helper elements) S.declare created, outermost first"""
    c = Case('x')
    decl(c, S)
    els, out = [], []
    order = []
    for cmd, _ in c.lines:
        w = cmd.split()
        if not w:
            continue
        if w[0] in ('fp', 'quad', 'fi', 'poly', 'polymod'):
            order.append(('f', w[1]))
        if w[0] == 'el':
            for e in w[2:]:
                order.append(('e', e))
    for k, n in reversed(order):
        out.append((n, "fieldclear %s" % n if k == 'f' else "clear %s" % n))
    return out
