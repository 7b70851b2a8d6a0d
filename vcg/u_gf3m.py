"""GF(3^m) as bit-sliced trit vectors: the real code on symbolic machine words, states
joined after every branch, against polynomial arithmetic over GF(3)."""
from .unit import *
from .exec import SBV


def tadd(a, b):
    """trits as (is1, is2) pairs of z3 Bools"""
    (a1, a2), (b1, b2) = a, b
    a0, b0 = z3.And(z3.Not(a1), z3.Not(a2)), z3.And(z3.Not(b1), z3.Not(b2))
    return (z3.simplify(z3.Or(z3.And(a1, b0), z3.And(a0, b1), z3.And(a2, b2))),
            z3.simplify(z3.Or(z3.And(a2, b0), z3.And(a0, b2), z3.And(a1, b1))))


def tneg(a):
    return (a[1], a[0])


def tmul(a, b):
    (a1, a2), (b1, b2) = a, b
    return (z3.simplify(z3.Or(z3.And(a1, b1), z3.And(a2, b2))), z3.simplify(z3.Or(z3.And(a1, b2), z3.And(a2, b1))))


T0 = (z3.BoolVal(False), z3.BoolVal(False))
T1 = (z3.BoolVal(True), z3.BoolVal(False))


class Gf3Unit(Unit):
    """arithmetic of GF(3)[x]/(x^m+x^t+2) for one (m, t), all elements and aliasings"""

    def __init__(self, m=7, t=2, heavy=True, **k):
        super().__init__(**k)
        self.m, self.t, self.heavy = m, t, heavy
        self.name = 'GF(3^%d), trinomial x^%d+x^%d+2' % (m, m, t)
        self.bounded = 'the degree m and exponent t are fixed for each run; elements are arbitrary'
        self.ex.merge = True
        self.ex.z3timeout = 60000
        self.words = m // 64 + 1

    def setup(self):
        st = State()
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_gf3m', K, self.m, self.t))
        return st, K

    def elem(self, st, K, nm):
        p = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.api(st, 'init', p, K))
        v = []
        W = 64
        words = [[None] * W for _ in range(2 * self.words)]
        for i in range(self.m):
            b1, b2 = z3.Bool('%s_%d_1' % (nm, i)), z3.Bool('%s_%d_2' % (nm, i))
            st.pc.append(z3.Not(z3.And(b1, b2)))
            v.append((b1, b2))
        self.store(st, p, v)
        return st, p, v

    def store(self, st, p, v):
        d = ring.getcell(st, p, ring.LAY.e_data)
        o = st.wobj(d.obj)
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        for h in range(2):
            for w in range(self.words):
                bits = [z3.If(v[64 * w + j][h], one, zero) if 64 * w + j < self.m else zero for j in range(64)]
                o.cells[d.off + 8 * (h * self.words + w)] = (8, SBV(64, z3.Concat(*reversed(bits))))

    def read(self, st, p):
        d = ring.getcell(st, p, ring.LAY.e_data)
        o = st.objs[d.obj]
        if o.freed:
            raise MemError("element data freed")
        ws = []
        for w in range(2 * self.words):
            v = self.ex.load(st, Ptr(d.obj, d.off + 8 * w), __import__('vcg.ir', fromlist=['IntT']).IntT(64), modules()['api.c'])
            if v is UNDEF:
                raise MemError("result is uninitialised")
            ws.append(v.e if isinstance(v, SBV) else z3.BitVecVal(v, 64))
        return ws

    def same(self, st, name, ws, v):
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        conds = []
        if self.canary:
            v = [tadd(v[0], T1)] + list(v[1:])
        for h in range(2):
            for w in range(self.words):
                for j in range(64):
                    k = 64 * w + j
                    b = z3.Extract(j, j, ws[h * self.words + w])
                    conds.append(b == (z3.If(v[k][h], one, zero) if k < self.m else zero))
        for i in range(0, len(conds), 16):
            r, mod = self.ex.check(st, [z3.Not(z3.And(*conds[i:i + 16]))], full=True)
            if r != z3.unsat:
                break
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown', '' if mod is None else 'trits set: ' + ' '.join(sorted(str(d) for d in mod.decls() if z3.is_true(mod[d])))[:600])
        self.canary_depth -= 1

    def red(self, c):
        """reduce a coefficient list modulo x^m = -x^t - 2 = -x^t + 1"""
        c = list(c)
        m, t = self.m, self.t
        for d in range(len(c) - 1, m - 1, -1):
            h = c[d]
            c[d] = T0
            c[d - m + t] = tadd(c[d - m + t], tneg(h))
            c[d - m] = tadd(c[d - m], h)
        c = c[:m] + [T0] * (m - len(c))
        return c

    def pmul(self, a, b):
        # operand a times x^i reduced step by step
        acc = [T0] * self.m
        cur = list(a)
        for i in range(self.m):
            acc = [tadd(x, tmul(b[i], y)) for x, y in zip(acc, cur)]
            cur = self.red([T0] + cur)
        return acc

    def do(self, op, alias):
        st, K = self.setup()
        es, vs = [], []
        for i in range(max(alias) + 1):
            st, p, v = self.elem(st, K, 'abc'[i])
            es.append(p)
            vs.append(v)
        ins = [vs[i] for i in alias[1:]]
        if op == 'add': want = [tadd(x, y) for x, y in zip(*ins)]
        elif op == 'sub': want = [tadd(x, tneg(y)) for x, y in zip(*ins)]
        elif op == 'double': want = [tneg(x) for x in ins[0]]
        elif op == 'neg': want = [tneg(x) for x in ins[0]]
        elif op == 'set': want = ins[0]
        elif op == 'mul': want = self.pmul(ins[0], ins[1])
        elif op == 'square': want = self.pmul(ins[0], ins[0])
        elif op == 'cubic': want = self.red([ins[0][i // 3] if i % 3 == 0 else T0 for i in range(3 * self.m - 2)])
        if op == 'invert':
            st.pc.append(z3.Or(*[b for x in ins[0] for b in x]))
        for s, _ in self.api(st, op, *[es[i] for i in alias]):
            got = self.read(s, es[alias[0]])
            if op == 'invert':
                one = z3.BitVecVal(1, 1)
                g = [(z3.Extract(k % 64, k % 64, got[k // 64]) == one, z3.Extract(k % 64, k % 64, got[self.words + k // 64]) == one) for k in range(self.m)]
                pr = self.pmul(g, ins[0])
                w = [T1] + [T0] * (self.m - 1)
                if self.canary:
                    w[0] = T0
                bad = z3.Or(*[z3.Xor(x[h], y[h]) for x, y in zip(pr, w) for h in (0, 1)])
                r = self.ex.check(s, [bad])
                self.canary_depth += 1
                self.ob('inverse times operand is 1', 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown')
                self.canary_depth -= 1
            else:
                self.same(s, 'value', got, want)
            for i in range(len(es)):
                if i != alias[0]:
                    self.same(s, 'operand unchanged', self.read(s, es[i]), vs[i])

    def do0(self, op):
        st, K = self.setup()
        st, p, v = self.elem(st, K, 'a')
        for s, _ in self.api(st, op, p):
            self.same(s, 'value', self.read(s, p), [T1 if op == 'set1' else T0] + [T0] * (self.m - 1))

    def dopred(self, op):
        st, K = self.setup()
        st, a, va = self.elem(st, K, 'a')
        args = [a]
        other = [T1 if op == 'is1' else T0] + [T0] * (self.m - 1)
        if op == 'cmp':
            st, b, other = self.elem(st, K, 'b')
            args.append(b)
        eq = z3.And(*[z3.And(x[0] == y[0], x[1] == y[1]) for x, y in zip(va, other)])
        for s, r in self.api(st, op, *args):
            self.truth(s, 'truth value', r, z3.Not(eq) if op == 'cmp' else eq)

    def dobytes(self):
        """to_bytes then from_bytes is the identity and fills exactly the stated length"""
        st, K = self.setup()
        st, a, va = self.elem(st, K, 'a')
        st, b, vb = self.elem(st, K, 'b')
        n = 16 * self.words
        buf = st.alloc(n, 'heap', 'buf')
        for s, r in self.api(st, 'to_bytes', buf, a):
            self.truth(s, 'to_bytes returns the length', 1 if r == n else 0, True)
            for s2, r2 in self.api(s, 'from_bytes', b, buf):
                self.truth(s2, 'from_bytes returns the length', 1 if r2 == n else 0, True)
                self.same(s2, 'round trip', self.read(s2, b), va)

    def body(self):
        if self.leak:
            self.case('lifecycle', self.lifecycle)
            self.case('lifecycle with a value', self.lifecycle, 'set1')
        for op in ('add', 'sub'):
            for al in ALIAS3:
                self.case("%s %s" % (op, alname(al)), self.do, op, al)
        for op in ('neg', 'set', 'double'):
            for al in ALIAS2:
                self.case("%s %s" % (op, alname(al)), self.do, op, al)
        for op in ('set0', 'set1'):
            self.case(op, self.do0, op)
        for op in ('is0', 'is1', 'cmp'):
            self.case(op, self.dopred, op)
        if self.heavy:
            for al in ALIAS3:
                self.case("mul " + alname(al), self.do, 'mul', al)
            for op in ('square', 'cubic'):
                for al in ALIAS2:
                    self.case("%s %s" % (op, alname(al)), self.do, op, al)
            if self.heavy != 'noinv':
                for al in ALIAS2:
                    self.case("invert " + alname(al), self.do, 'invert', al)
        self.case('bytes', self.dobytes)
