"""Sparse multivariate polynomials with rational coefficients (Z[x..] in practice).

Values of integers (mpz, limb vectors) and of elements of an abstract
commutative ring are represented as such polynomials over symbols."""
from fractions import Fraction

_names = []
_ids = {}


def sym_id(name):
    i = _ids.get(name)
    if i is None:
        i = len(_names)
        _ids[name] = i
        _names.append(name)
    return i


def sym_name(i):
    return _names[i]


_fresh = [0]


def fresh_name(prefix):
    _fresh[0] += 1
    return "%s!%d" % (prefix, _fresh[0])


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la = len(a)
    lb = len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def _mkey(m):
    # graded, ties broken so that the order is compatible with multiplication:
    # compare exponents of the smallest variable first
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def var(name):
        return Poly({((sym_id(name), 1),): 1})

    @staticmethod
    def fresh(prefix="v"):
        return Poly.var(fresh_name(prefix))

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = P(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def scale(self, c):
        return Poly({m: c * k for m, k in self.t.items()}) if c else Poly()

    def key(self):
        return tuple(sorted(self.t.items()))

    def __eq__(self, o):
        return isinstance(o, (Poly, int, Fraction)) and (self - P(o)).is_zero()

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def degree_in(self, v):
        d = 0
        for m in self.t:
            for w, e in m:
                if w == v and e > d:
                    d = e
        return d

    def coeffs_in(self, v):
        """dict exponent -> Poly"""
        r = {}
        for m, c in self.t.items():
            e = 0
            rest = m
            for k, (w, x) in enumerate(m):
                if w == v:
                    e = x
                    rest = m[:k] + m[k + 1:]
                    break
            r.setdefault(e, {})[rest] = c
        return {e: Poly(t) for e, t in r.items()}

    def subst(self, v, p):
        if v not in self.vars():
            return self
        cs = self.coeffs_in(v)
        r = Poly()
        pw = Poly.const(1)
        for e in range(max(cs) + 1):
            if e in cs:
                r = r + cs[e] * pw
            if e < max(cs):
                pw = pw * p
        return r

    def eval(self, env, mod=None):
        tot = 0
        for m, c in self.t.items():
            if mod is not None:
                if isinstance(c, Fraction):
                    x = c.numerator * pow(c.denominator, -1, mod) % mod
                else:
                    x = c % mod
                for v, e in m:
                    x = x * pow(env[v], e, mod) % mod
                tot = (tot + x) % mod
            else:
                x = c
                for v, e in m:
                    x = x * env[v] ** e
                tot += x
        return tot

    def lead(self):
        """leading monomial, graded then lexicographic"""
        return max(self.t, key=_mkey)

    def exact_div(self, d, char=None):
        """quotient if d divides self exactly, else None"""
        if d.is_zero():
            return None
        lm = d.lead()
        lc = d.t[lm]
        inv = pow(int(lc), -1, char) if char else Fraction(1) / lc
        r = Poly(dict(self.t))
        q = {}
        lmd = dict(lm)
        steps = 0
        while r.t:
            m = r.lead()
            md = dict(m)
            for v, e in lmd.items():
                x = md.get(v, 0) - e
                if x < 0:
                    return None
                md[v] = x
            qm = tuple(sorted((v, e) for v, e in md.items() if e))
            c = r.t[m] * inv
            if char:
                c %= char
            elif isinstance(c, Fraction) and c.denominator == 1:
                c = c.numerator
            q[qm] = c
            r = r - Poly({qm: c}) * d
            if char:
                r = Poly({k: v % char for k, v in r.t.items() if v % char})
            steps += 1
            if steps > 3000:
                return None
        return Poly(q)

    def clear_denoms(self):
        d = 1
        for c in self.t.values():
            if isinstance(c, Fraction):
                from math import gcd
                d = d * c.denominator // gcd(d, c.denominator)
        if d == 1:
            return Poly({m: int(c) for m, c in self.t.items()}), 1
        return Poly({m: int(c * d) for m, c in self.t.items()}), d

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
            ms = "*".join(_names[v] + ("^%d" % e if e > 1 else "") for v, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        s = " + ".join(out[:40]).replace("+ -", "- ")
        if len(out) > 40:
            s += " + ...(%d terms)" % len(out)
        return s


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    raise TypeError(x)
