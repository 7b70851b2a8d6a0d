"""Element text (C13).

A text is a list of pieces: literal bytes, or the text of a base element or number, of
unknown length.  Printing into a bounded buffer must place every piece right after the
one before it with exactly the room left, so that the buffer holds the beginning of the
whole text and is terminated; the number returned is the length of the whole text."""
from .unit import *
from . import u_quad, u_ext, u_curve, u_fp, u_z
from .u_enc import EncMixin
from .u_text import cstr
from .u_gen import GenUnit
from .loops import LoopInv
from .poly import fresh_name
from .ir import IntT, PtrT

BIG = 1 << 24
WS = b' \t\r\n\v\f'
BASE = Poly.var('base')


class Text:
    """pieces (offset, length, content); size: room in a bounded buffer, None for a stream or a given text"""

    def __init__(self, size, pieces=(), parse=False):
        self.size, self.pieces, self.parse = size, tuple(pieces), parse

    def end(self):
        t = P(0)
        for _, l, _ in self.pieces:
            t = t + l
        return t

    def add(self, l, c):
        return Text(self.size, self.pieces + ((self.end(), P(l), c),), self.parse)

    def at(self, ex, st, off):
        """(piece, index into it) at this position"""
        for o, l, c in self.pieces:
            d = P(off) - o
            if d.is_const() and isinstance(c, bytes) and 0 <= int(d.const_value()) < len(c):
                return c, int(d.const_value()), l
            if d.is_zero():
                return c, 0, l
        for o, l, c in self.pieces:
            d = P(off) - o
            if not d.is_const() and ex.check(st, [to_z3(d) != 0]) == z3.unsat:
                return c, 0, l
        return None

    def w_load(self, ex, st, o, off, ty, n):
        if n != 1 or not self.parse:
            raise Unsupported("text read as memory")
        h = self.at(ex, st, off)
        if h is None:
            if (P(off) - self.end()).is_zero():
                return 0
            r = ex.check(st, [z3.Not(z3.And(to_z3(P(off)) >= 0, to_z3(P(off)) <= to_z3(self.end())))])
            if r == z3.sat:
                raise MemError("read outside the text")
            raise Unsupported("character inside a number")
        c, i, l = h
        if isinstance(c, bytes):
            return c[i]
        # first character of a number, digit or letter
        key = ('first', repr(c))
        if key not in st.data:
            v = Poly.fresh('ch')
            z = to_z3(v)
            ex.assume(st, z3.Or(z3.And(z >= 48, z <= 57), z3.And(z >= 97, z <= 122)))
            st.data[key] = SI(8, v, 48, 122)
        return st.data[key]

    def w_store(self, *a):
        raise Unsupported("text written as memory")


def ghost(st, p):
    if not isinstance(p, Ptr):
        raise MemError("text through %r" % (p,))
    o = st.objs[p.obj]
    if o.freed:
        raise MemError("text in released storage")
    return o.ghost


class Chars:
    """classification of characters: element 2c of the table"""

    def w_load(self, ex, st, o, off, ty, n):
        if n != 2:
            raise Unsupported("character class")
        off = P(off)
        q = Poly({m: c // 2 for m, c in off.t.items()})
        if not (q * 2 == off):
            raise Unsupported("character class")
        if q.is_const():
            c = int(q.const_value()) & 255
            ch = bytes([c])
            return (8192 if ch in WS else 0) | (2048 if 48 <= c <= 57 else 0) | (1024 if ch.isalpha() else 0) | (256 if ch.isupper() else 0) | (512 if ch.islower() else 0) | (8 if ch.isalnum() else 0)
        z = to_z3(q)
        bits = []
        for k, w in ((13, z3.Or(*[z == x for x in WS])), (11, z3.And(z >= 48, z <= 57)), (10, z3.Or(z3.And(z >= 65, z <= 90), z3.And(z >= 97, z <= 122)))):
            b = Poly.fresh('cls')
            ex.assume(st, z3.And(to_z3(b) >= 0, to_z3(b) <= 1, (to_z3(b) == 1) == w))
            bits.append((k, b))
        v = P(0)
        for k, b in bits:
            v = v + b * (1 << k)
        st.data['classes'] = tuple(st.data.get('classes', ())) + ((v, dict(bits)),)
        return SI(16, v, 0, (1 << 16) - 1)

    w_store = None


class Printing:
    """contracts of the text functions of libc and GMP"""

    def printing(self):
        self.ex.contracts = C = dict(self.ex.contracts)
        C['snprintf'] = self.c_snprintf
        C['__gmp_snprintf'] = self.c_gmp_snprintf
        C['fputc'] = C['putc'] = C['_IO_putc'] = self.c_fputc
        C['fputs'] = self.c_fputs
        C['fprintf'] = self.c_fprintf
        C['__ctype_b_loc'] = self.c_ctype
        C['__gmpz_out_str'] = self.c_out
        self.assumptions.add("snprintf, gmp_snprintf and mpz_out_str as documented; writing to a stream succeeds; texts shorter than 2^24 bytes per coordinate")

    def c_ctype(self, ex, st, a):
        t = st.alloc(None, 'global', 'classes')
        st.wobj(t.obj).ghost = Chars()
        p = st.alloc(8, 'global', 'classes pointer')
        ring.setcell(st, p, 0, t)
        return p

    def piece(self, ex, st, p, n, l, c):
        """a piece printed with room n"""
        g = ghost(st, p)
        if not isinstance(g, Text):
            raise Unsupported("text into ordinary memory")
        n = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        off = P(p.off)
        zo, zn, zs = to_z3(off), to_z3(n), to_z3(g.size)
        inside = z3.Or(zn == 0, z3.And(zo >= 0, zo + zn <= zs))
        r = ex.check(st, [z3.Not(inside)])
        self.check_goal(st, 'piece stays inside the buffer', inside)
        if r == z3.sat:
            ex.assume(st, inside)
        elif r != z3.unsat:
            raise Unsupported("[limit] text not shown inside the buffer")
        self.check_goal(st, 'piece follows the one before it', zo == to_z3(g.end()))
        self.check_goal(st, 'piece gets exactly the room left', zn == z3.If(zo < zs, zs - zo, 0))
        st.wobj(p.obj).ghost = g.add(l, c)

    def check_goal(self, st, name, c):
        if self.leak:
            return
        if self.canary:
            c = z3.Not(c)
        r = self.ex.check(st, [z3.Not(c)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown', '' if r == z3.unsat else str(c)[:200])
        self.canary_depth -= 1

    def check_eq(self, st, name, a, b):
        self.check_goal(st, name, to_z3(P(a)) == to_z3(P(b)))

    def textlen(self, ex, st, key, v):
        t = st.data.get('txtlen', ())
        v = ring.value_form(st, P(v)) if key[0] == 'txt' else P(v)
        for (k, w, L) in t:
            if k == key and (w == v or ring.normal(st, w - v).is_zero()):
                return L
        L = Poly.fresh('len')
        ex.assume(st, z3.And(to_z3(L) >= 1, to_z3(L) <= BIG))
        st.data['txtlen'] = tuple(t) + ((key, v, L),)
        return L

    def c_snprintf(self, ex, st, a):
        f = cstr(st, a[2])
        if f == b'%s':
            f = cstr(st, a[3])
        elif b'%' in f:
            raise Unsupported("format %r" % f)
        self.piece(ex, st, a[0], a[1], len(f), f)
        return len(f)

    def number(self, ex, st, base, v):
        """pieces of a number: sign and digits; one outcome per sign"""
        z = to_z3(v)
        out = []
        n = st.fork()
        ex.assume(st, z >= 0)
        ex.assume(n, z < 0)
        if ex.check(st, []) != z3.unsat:
            out.append((st, [(self.textlen(ex, st, ('num', base), v), ('num', base, v))]))
        if ex.check(n, []) != z3.unsat:
            out.append((n, [(P(1), b'-'), (self.textlen(ex, n, ('num', base), -v), ('num', base, -v))]))
        return out

    def c_gmp_snprintf(self, ex, st, a):
        f = cstr(st, a[2])
        if f != b'%Zd':
            raise Unsupported("format %r" % f)
        out = []
        for s, ps in self.number(ex, st, P(10), gmp.mget(ex, st, a[3])):
            t = P(0)
            for l, c in ps:
                t = t + l
            if len(ps) == 1:
                self.piece(ex, s, a[0], a[1], ps[0][0], ps[0][1])
            else:
                g0 = ghost(s, a[0])
                self.piece(ex, s, a[0], a[1], t, 'signed')
                g = g0
                for l, c in ps:
                    g = g.add(l, c)
                s.wobj(a[0].obj).ghost = g
            out.append((s, SI(32, t, 1, 2 * BIG)))
        return out

    def stream_add(self, st, p, l, c):
        g = ghost(st, p)
        if not isinstance(g, Text):
            raise Unsupported("another stream")
        st.wobj(p.obj).ghost = g.add(l, c)

    def c_fputc(self, ex, st, a):
        c = a[0] if isinstance(a[0], int) else None
        if c is None:
            raise Unsupported("character not known")
        self.stream_add(st, a[1], 1, bytes([c & 255]))
        return c & 255

    def c_fputs(self, ex, st, a):
        f = cstr(st, a[0])
        self.stream_add(st, a[1], len(f), f)
        return 1

    def c_fprintf(self, ex, st, a):
        f = cstr(st, a[1])
        if f == b'%s':
            f = cstr(st, a[2])
        elif b'%' in f:
            raise Unsupported("format %r" % f)
        self.stream_add(st, a[0], len(f), f)
        return len(f)

    def base_of(self, ex, st, b):
        b = P(b) if isinstance(b, int) else ex.as_s(st, b, 32)
        return P(10) if b.is_zero() else b

    def c_out(self, ex, st, a):
        b = self.base_of(ex, st, a[1])
        out = []
        for s, ps in self.number(ex, st, b, gmp.mget(ex, st, a[2])):
            t = P(0)
            for l, c in ps:
                self.stream_add(s, a[0], l, c)
                t = t + l
            out.append((s, SI(64, t, 1, 2 * BIG)))
        return out

    # ---- what a printed text looks like
    def stream(self, st):
        p = st.alloc(None, 'heap', 'stream')
        st.wobj(p.obj).ghost = Text(None)
        return p

    def page(self, st):
        n = Poly.fresh('size')
        self.ex.assume(st, z3.And(to_z3(n) >= 0, to_z3(n) <= 1 << 40))
        p = st.alloc(None, 'heap', 'buffer')
        st.wobj(p.obj).ghost = Text(n)
        return p, SI(64, n, 0, 1 << 40)

    def given(self, st, g):
        p = st.alloc(None, 'heap', 'given text')
        st.wobj(p.obj).ghost = Text(None, g.pieces, True)
        return p

    def bases(self, st):
        self.ex.assume(st, z3.And(to_z3(BASE) >= 2, to_z3(BASE) <= 36))
        return SI(32, BASE, 2, 36)

    def flag(self, name, ok, det='', bad='failed'):
        if self.leak:
            return
        if self.canary:
            ok = not ok
        self.canary_depth += 1
        self.ob(name, 'proved' if ok else bad, det)
        self.canary_depth -= 1


class PrintBase(ring.Base):
    """coordinates: text of some length, parsed back exactly; leading white space is skipped"""
    unit = None

    def key(self, b):
        return ('txt', self.name, b)

    def s_snprint(self, ex, st, s, n, a):
        v = ring.value_form(st, ring.get(ex, st, a))
        L = self.unit.textlen(ex, st, self.key(P(10)), v)
        self.unit.piece(ex, st, s, n, L, ('txt', self.name, P(10), v))
        return SI(32, L, 1, BIG)

    def s_out_str(self, ex, st, f, b, a):
        v = ring.value_form(st, ring.get(ex, st, a))
        b = self.unit.base_of(ex, st, b)
        L = self.unit.textlen(ex, st, self.key(b), v)
        self.unit.stream_add(st, f, L, ('txt', self.name, b, v))
        return SI(64, L, 1, BIG)

    def s_set_str(self, ex, st, a, s, b):
        g = ghost(st, s)
        if not isinstance(g, Text):
            raise Unsupported("another text")
        b = self.unit.base_of(ex, st, b)
        off, n = P(s.off), 0
        while True:
            h = g.at(ex, st, off + n)
            if h is not None and isinstance(h[0], bytes) and h[0][h[1]] in WS:
                n += 1
                continue
            break
        if h is None or not isinstance(h[0], tuple) or h[0][0] != 'txt' or h[0][1] != self.name:
            raise Unsupported("coordinate parsed where there is none")
        self.unit.flag('coordinate parsed in the base printed', (b - h[0][2]).is_zero())
        ring.put(ex, st, a, h[0][3])
        return SI(32, h[2] + n, 1, BIG + 64)


class TextMixin(Printing, EncMixin):
    def new_base(self, name='F'):
        b = PrintBase(name)
        b.unit = self
        return b

    def want(self, v):
        """the coordinates in order between brackets"""
        return v

    def shape(self, st, name, g, v, b):
        """[ v0, v1, ... ] with white space only where it is skipped"""
        toks = []
        for o, l, c in g.pieces:
            if isinstance(c, bytes):
                toks += [bytes([x]) for x in c if bytes([x]) not in (b' ',)]
            else:
                toks.append(c)
        if v is None:
            self.flag(name + ' is that of O', toks == [b'O'], repr(toks)[:200])
            return
        ok = len(toks) == 2 * len(v) + 1 and toks[0] == b'[' and toks[-1] == b']' and all(toks[2 * i] == b',' for i in range(1, len(v)))
        self.flag(name + ' lists the coordinates', ok, repr(toks)[:200])
        if ok:
            for i, x in enumerate(v):
                c = toks[2 * i + 1]
                self.flag(name + ' is in the base asked for', isinstance(c, tuple) and (c[2] - b).is_zero())
                self.eq(st, name + ' coordinate', c[3], x)

    def same_read(self, s, what, p, v):
        self.eq(s, what, self.read(s, p), v)

    def target(self, s, K, prev):
        s, c, _ = self.view_new(s, K, 'b')
        return s, c

    def bounded_(self, mk):
        st, K, S = self.setup()
        st, a, v = mk(st, K)
        b, n = self.page(st)
        for s, r in self.api(st, 'snprint', b, n, a):
            if not self.path_ok(s):
                continue
            g = s.objs[b.obj].ghost
            self.check_eq(s, 'length of the full text is returned', self.num(s, r), g.end())
            self.shape(s, 'text', g, v, P(10))
            self.same_read(s, 'operand unchanged', a, v)
            t = self.given(s, g)
            for prev in self.prevs:
                s1, c = self.target(s.fork(), K, prev)
                for s2, m in self.api(s1, 'set_str', c, t, 10):
                    self.check_eq(s2, 'exactly the text is consumed', self.num(s2, m), g.end())
                    self.same_read(s2, 'element read back', c, v)

    def streamed(self, mk):
        st, K, S = self.setup()
        st, a, v = mk(st, K)
        f = self.stream(st)
        b = self.bases(st)
        for s, r in self.api(st, 'out_str', f, b, a):
            if not self.path_ok(s):
                continue
            g = s.objs[f.obj].ghost
            self.check_eq(s, 'bytes written are returned', self.ex.as_u(s, r, 64), g.end())
            self.shape(s, 'text', g, v, BASE)
            self.same_read(s, 'operand unchanged', a, v)
            t = self.given(s, g)
            for prev in self.prevs:
                s1, c = self.target(s.fork(), K, prev)
                for s2, m in self.api(s1, 'set_str', c, t, b):
                    self.check_eq(s2, 'exactly the text is consumed', self.num(s2, m), g.end())
                    self.same_read(s2, 'element read back', c, v)

    prevs = ('b',)

    def body(self):
        def mk(st, K):
            return self.view_new(st, K, 'a')
        self.case('bounded printing', self.bounded_, mk)
        self.case('stream printing', self.streamed, mk)


NOTE = "base texts: equal elements alike, of at least one character, parsed back exactly, leading white space skipped"


class QuadText(TextMixin, u_quad.QuadUnit):
    def __init__(self, kind='fq', **k):
        super().__init__(kind=kind, **k)
        self.name = 'text of the quadratic extension ' + kind
        self.assumptions.add(NOTE)
        self.printing()

    def body(self):
        TextMixin.body(self)


class PolymodText(TextMixin, u_ext.PolymodUnit):
    def __init__(self, n=3, **k):
        super().__init__(n=n, **k)
        self.name = 'text of the degree-%d polynomial extension' % n
        self.assumptions.add(NOTE)
        self.printing()

    def body(self):
        TextMixin.body(self)


class CurveText(TextMixin, u_curve.CurveUnit):
    prevs = ('P', 'O')

    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'text of points'
        self.assumptions.add(NOTE)
        self.printing()

    def target(self, s, K, prev):
        s, q, _ = self.point(s, K, 'Q', prev)
        return s, q

    def same_read(self, s, what, p, v):
        for s1, w in self.read_b(s, p):
            self.eq(s1, what, w, v)

    def body(self):
        for kind in 'PO':
            def mk(st, K, kind=kind):
                return self.point(st, K, 'P', kind)
            self.case('bounded printing of ' + kind, self.bounded_, mk)
            self.case('stream printing of ' + kind, self.streamed, mk)


# ---------------------------------------------------------------- numerals

class DigitLoop(LoopInv):
    """i characters read: white space, then digits of the value so far"""

    def havoc(self, L):
        u, st = self.unit, L.st
        i, v = Poly.fresh('i'), Poly.fresh('val')
        L.set_int('i', i, 0, 1 << 30)
        L.assume(z3.And(to_z3(i) >= 0, to_z3(i) <= to_z3(u.end), u.V(to_z3(i)) == to_z3(v)))
        gmp.mset(L.ex, st, u.z, v)
        if L.has('c'):
            L.ex.store(st, L.ptr('c'), IntT(8), SI(8, Poly.fresh('c'), -128, 127), L.fr.fn.mod)
        if L.has('j'):
            L.ex.store(st, L.ptr('j'), IntT(32), SI(32, Poly.fresh('j'), -(1 << 31), (1 << 31) - 1), L.fr.fn.mod)

    def check(self, L, tag):
        u, st = self.unit, L.st
        i = to_z3(L.int('i'))
        u.check_goal(st, 'inside the text (%s)' % tag, z3.And(i >= 0, i <= to_z3(u.end)))
        u.check_goal(st, 'value of the characters read (%s)' % tag, to_z3(gmp.mget(L.ex, st, u.z)) == u.V(i))

    def variant(self, L):
        return self.unit.end - L.int('i')


class Numeral:
    """w characters of white space, l digits, then a character that is none"""

    def __init__(self, unit):
        self.u = unit

    def w_load(self, ex, st, o, off, ty, n):
        u = self.u
        i = to_z3(P(off))
        r = ex.check(st, [z3.Not(z3.And(i >= 0, i <= to_z3(u.end)))])
        if r == z3.sat:
            raise MemError("read outside the text")
        if r != z3.unsat:
            raise Unsupported("[limit] read not shown inside the text")
        c = Poly.fresh('ch')
        z, d = to_z3(c), u.D(i)
        W, E = to_z3(u.w), to_z3(u.end)
        ex.assume(st, z3.And(z >= -128, z <= 127))
        ex.assume(st, z3.Implies(i < W, z3.And(z3.Or(*[z == x for x in WS]), u.V(i + 1) == u.V(i))))
        ex.assume(st, z3.Implies(z3.And(i >= W, i < E), z3.And(d >= 0, d < u.b, z3.If(d < 10, z == 48 + d, z3.Or(z == 55 + d, z == 87 + d)), u.V(i + 1) == u.V(i) * u.b + d)))
        if u.stop == 'digit':
            # a digit too large for the base
            ex.assume(st, z3.Implies(i == E, z3.Or(z3.And(z >= 48, z <= 57, z >= 48 + u.b), z3.And(z >= 65, z <= 90, z >= 55 + u.b), z3.And(z >= 97, z <= 122, z >= 87 + u.b))))
        else:
            ex.assume(st, z3.Implies(i == E, z3.Not(z3.Or(z3.And(z >= 48, z <= 57), z3.And(z >= 65, z <= 90), z3.And(z >= 97, z <= 122), *[z == x for x in WS]))))
        return SI(8, c, -128, 127)


class NumeralUnit(Printing, GenUnit):
    name = 'numerals of any length in every base'

    def __init__(self, **k):
        super().__init__(**k)
        self.printing()
        self.D = z3.Function('digit', z3.IntSort(), z3.IntSort())
        self.V = z3.Function('value', z3.IntSort(), z3.IntSort())
        self.ex.z3timeout = 3000

    def numeral(self, base, stop):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.b = base or 10
        self.stop = stop
        self.w, l = Poly.var('w'), Poly.var('l')
        self.end = self.w + l
        ex.assume(st, z3.And(to_z3(self.w) >= 0, to_z3(l) >= 0, to_z3(self.end) < 1 << 29, self.V(0) == 0))
        t = st.alloc(None, 'heap', 'text')
        st.wobj(t.obj).ghost = Numeral(self)
        self.z = z = self.mpz(st, Poly.var('old'))
        DigitLoop(self, 'pbc_mpz_set_str', 0)
        h = heap(st, [t, z])
        n = 0
        for s, r in self.fn(st, 'pbc_mpz_set_str', z, t, base):
            if not self.path_ok(s):
                continue
            n += 1
            self.check_eq(s, 'white space and digits are consumed, nothing else', ex.as_s(s, r, 32), self.end)
            self.check_goal(s, 'value is that of the digits', to_z3(gmp.mget(ex, s, z)) == self.V(to_z3(self.end)))
            self.no_leak(s, h, None, 'pbc_mpz_set_str')
        self.flag('returns', n > 0, bad='unknown')

    def body(self):
        for b in [0] + list(range(2, 37)):
            self.case('base %d' % b if b else 'base not given', self.numeral, b, 'other')
            if b < 36:
                self.case(('base %d' % b if b else 'base not given') + ', followed by a digit of a larger base', self.numeral, b, 'digit')


# ---------------------------------------------------------------- prime fields and integers

class Leaf(Printing):
    """numbers printed and parsed through GMP and pbc_mpz_set_str"""

    def leaf(self):
        self.printing()
        self.ex.contracts['pbc_mpz_set_str'] = self.c_parse

    def c_parse(self, ex, st, a):
        g = ghost(st, a[1])
        if not isinstance(g, Text):
            raise Unsupported("another text")
        b = self.base_of(ex, st, a[2])
        h = g.at(ex, st, P(a[1].off))
        if h is None or not isinstance(h[0], tuple) or h[0][0] != 'num':
            raise Unsupported("number parsed where there is none")
        self.flag('number parsed in the base printed', (b - h[0][1]).is_zero())
        gmp.mset(ex, st, a[0], h[0][2])
        return SI(32, h[2], 1, BIG)


class FpText(Leaf):
    R = P(1)

    def written(self, kind, prev, how):
        outs0, K, p = self.setup()
        ex = self.ex
        for st0, _ in outs0:
            for st, a, va in self.elem(st0.fork(), K, 'a', stale=kind == '0'):
                for st1, b, vb in ([(st, a, va)] if prev == 'same' else self.elem(st, K, 'b', stale=prev == '0')):
                    if how == 'stream':
                        f, base = self.stream(st1), self.bases(st1)
                        outs = self.api(st1, 'out_str', f, base, a)
                    else:
                        f, n = self.page(st1)
                        base = 10
                        outs = self.api(st1, 'snprint', f, n, a)
                    for s, r in outs:
                        g = s.objs[f.obj].ghost
                        self.check_eq(s, 'length of the text is returned', ex.as_u(s, r, 64 if how == 'stream' else 32), g.end())
                        c = g.pieces[0][2] if len(g.pieces) == 1 else None
                        ok = isinstance(c, tuple) and c[0] == 'num'
                        if not ok and ex.check(s, []) == z3.unsat:
                            continue
                        self.flag('text is one number', ok, repr(g.pieces)[:200])
                        if not ok:
                            continue
                        N = c[2]
                        self.flag('in the base asked for', (c[1] - (BASE if how == 'stream' else P(10))).is_zero())
                        ok = self.cong(s, 'number in the text', N * self.R, va, canonical=False)
                        if ok and not va.is_zero() and ex.check(s, [to_z3(va) <= 0]) == z3.unsat:
                            ex.assume(s, to_z3(N) != 0)
                            if ex.check(s) == z3.unsat:
                                continue
                        t = self.given(s, g)
                        for s2, m in self.api(s, 'set_str', b, t, base):
                            self.check_eq(s2, 'exactly the text is consumed', ex.as_s(s2, m, 32), g.end())
                            for s3, w in self.value(s2, b):
                                if w.is_zero() and self.absurd(s3, va, p):
                                    continue
                                self.stored(s3, 'element read back', w, va)

    def body(self):
        for how in ('stream', 'buffer'):
            for k in 'a0':
                for prev in ('b', '0', 'same'):
                    self.case('%s printing of %s read into %s' % (how, k, prev), self.written, k, prev, how)


from .u_enc import FpEnc


class FpTextUnit(FpText, FpEnc, u_fp.FpUnit):
    def __init__(self, **k):
        u_fp.FpUnit.__init__(self, **k)
        self.name = 'text of ' + self.name
        self.leaf()

    setup = u_fp.FpUnit.setup


class FpRepTextUnit(FpText, FpEnc, u_fp.FpRepUnit):
    def __init__(self, **k):
        u_fp.FpRepUnit.__init__(self, **k)
        self.name = 'text of ' + self.name
        self.leaf()

    setup = u_fp.FpRepUnit.setup


class ZText(Leaf, u_z.ZUnit):
    """integers of either sign; also the multinomials that are plain integers"""

    def __init__(self, init='z', **k):
        super().__init__(**k)
        self.init = init
        self.name = 'text of integers' if init == 'z' else 'text of integers among nested lists'
        self.leaf()

    def setup(self):
        st = State()
        K = st.alloc(ring.LAY.size, 'heap', 'K')
        st, _ = self.one(self.fn(st, 'field_init_' + self.init, K))
        return st, K

    def written(self, how, same):
        ex = self.ex
        st, K = self.setup()
        v = Poly.var('v')
        st, a = self.elem(st, K, v)
        st, b = (st, a) if same else self.elem(st, K, Poly.var('u'))
        if how == 'stream':
            f, base = self.stream(st), self.bases(st)
            outs = self.api(st, 'out_str', f, base, a)
        else:
            f, n = self.page(st)
            base = 10
            outs = self.api(st, 'snprint', f, n, a)
        for s, r in outs:
            if not self.path_ok(s):
                continue
            g = s.objs[f.obj].ghost
            self.check_eq(s, 'length of the text is returned', ex.as_u(s, r, 64 if how == 'stream' else 32), g.end())
            ps = [c for _, _, c in g.pieces]
            neg = ps[:1] == [b'-']
            ok = len(ps) == 1 + neg and isinstance(ps[-1], tuple)
            self.flag('text is one number', ok, repr(ps)[:200])
            if not ok:
                continue
            self.flag('in the base asked for', (ps[-1][1] - (BASE if how == 'stream' else P(10))).is_zero())
            self.check_eq(s, 'number in the text', -ps[-1][2] if neg else ps[-1][2], v)
            t = self.given(s, g)
            for s2, m in self.api(s, 'set_str', b, t, base):
                self.check_eq(s2, 'exactly the text is consumed', ex.as_s(s2, m, 32), g.end())
                self.check_eq(s2, 'integer read back', self.read(s2, b), v)

    def body(self):
        for how in ('stream', 'buffer'):
            for same in (False, True):
                self.case('%s printing%s' % (how, ' read in place' if same else ''), self.written, how, same)


class ListText(Leaf, u_z.MultizUnit):
    """nested lists of integers"""

    def __init__(self, **k):
        super().__init__(**k)
        self.name = 'text of nested lists of integers'
        self.leaf()

    def flat(self, v):
        if isinstance(v, (tuple, list)):
            out = [b'[']
            for i, x in enumerate(v):
                out += ([b','] if i else []) + self.flat(x)
            return out + [b']']
        return [v]

    def written(self, sh, how):
        ex = self.ex
        st, K = self.setup()
        st, a, v = self.build(st, K, sh, 'a')
        if how == 'stream':
            f, base = self.stream(st), self.bases(st)
            outs = self.api(st, 'out_str', f, base, a)
        else:
            f, n = self.page(st)
            outs = self.api(st, 'snprint', f, n, a)
        for s, r in outs:
            if not self.path_ok(s):
                continue
            g = s.objs[f.obj].ghost
            self.check_eq(s, 'length of the text is returned', ex.as_u(s, r, 64 if how == 'stream' else 32), g.end())
            toks, neg = [], False
            for _, _, c in g.pieces:
                if isinstance(c, bytes):
                    if c == b'-':
                        neg = True
                        continue
                    toks += [bytes([x]) for x in c if x != 32]
                else:
                    toks.append(-c[2] if neg else c[2])
                    neg = False
            want = self.flat(v)
            ok = len(toks) == len(want) and all((x == y) if isinstance(y, bytes) else isinstance(x, Poly) for x, y in zip(toks, want))
            self.flag('brackets and commas as nested', ok, repr(toks)[:200])
            if ok:
                for x, y in zip(toks, want):
                    if not isinstance(y, bytes):
                        self.check_eq(s, 'integers in order', x, y)

    def body(self):
        for sh in self.SHAPES[:5]:
            for how in ('stream', 'buffer'):
                self.case('%s printing of %s' % (how, str(sh)), self.written, sh, how)


# ---------------------------------------------------------------- format strings

class FormatUnit(Printing, GenUnit):
    """formats with %B among literal text and other conversions"""
    name = 'format strings with elements'
    bounded = 'the format strings listed; elements, their lengths and buffer sizes are arbitrary'
    FORMATS = (b'', b'ab', b'%B', b'a%Bb', b'%B%B', b'%B, %B', b'%%', b'x%%y%Bz%%', b'%d', b'<%s>=%B\n', b'%Zd,%B', b'%B%d%B', b'100%', b'%5d%B', b'%%%B%%%%')

    def __init__(self, **k):
        super().__init__(**k)
        self.printing()
        C = self.ex.contracts
        C['pbc_strdup'] = self.c_dup
        C['strchr'] = self.c_chr
        C['strlen'] = lambda ex, st, a: len(cstr(st, a[0]))
        C['__gmp_snprintf'] = lambda ex, st, a: self.conv(ex, st, a, True)
        C['__gmp_fprintf'] = lambda ex, st, a: self.conv(ex, st, a, False)

    def bytes_(self, st, b, kind='heap'):
        p = st.alloc(len(b) + 1, kind, 'string')
        for i, c in enumerate(b + b'\0'):
            ring.setcell(st, p, i, c, 1)
        return p

    def c_dup(self, ex, st, a):
        return self.bytes_(st, cstr(st, a[0]))

    def c_chr(self, ex, st, a):
        s, c = cstr(st, a[0]), a[1]
        if not isinstance(c, int):
            raise Unsupported("character not known")
        i = (s + b'\0').find(bytes([c & 255]))
        return Ptr(a[0].obj, a[0].off + i) if i >= 0 else 0

    def conv(self, ex, st, a, bounded):
        f = cstr(st, a[2] if bounded else a[1])
        arg = a[3] if bounded else a[2]
        key = (f, arg.obj if isinstance(arg, Ptr) else arg)
        L = st.data.get(('conv', key))
        if L is None:
            L = Poly.fresh('len')
            ex.assume(st, z3.And(to_z3(L) >= 0, to_z3(L) <= BIG))
            st.data['conv', key] = L
        if bounded:
            self.piece(ex, st, a[0], a[1], L, ('fmt',) + key)
        else:
            self.stream_add(st, a[0], L, ('fmt',) + key)
        return SI(32, L, 0, BIG)

    def expected(self, f, args):
        out, lit, i, args = [], b'', 0, list(args)
        while i < len(f):
            if f[i:i + 1] != b'%' or i + 1 == len(f):
                lit += f[i:i + 1]
                i += 1
                continue
            if f[i + 1:i + 2] == b'%':
                lit += b'%'
                i += 2
                continue
            j = i + 1
            while f[j:j + 1] not in (b'B', b'd', b's', b'Z'):
                j += 1
            if f[j:j + 1] == b'Z':
                j += 1
            if lit:
                out.append(lit)
            lit = b''
            a = args.pop(0)
            out.append(('el', a) if f[j:j + 1] == b'B' else ('fmt', f[i:j + 1], a.obj))
            i = j + 1
        return out + ([lit] if lit else [])

    def printed(self, f, how):
        ex, st = self.ex, State()
        b = PrintBase('F')
        b.unit = self
        ring.mk_field(ex, st, b)
        args, kinds = [], []
        nconv = len([x for x in self.expected(f, [Ptr(0, 0)] * 20) if not isinstance(x, bytes)])
        spec = [x for x in self.expected(f, [Ptr(0, 0)] * 20) if not isinstance(x, bytes)]
        vals = {}
        for k, x in enumerate(spec):
            if x[0] == 'el':
                v = Poly.var('v%d' % k)
                e = ring.new_elem(ex, st, b, v)
                vals[e.obj] = v
                args.append(e)
            else:
                args.append(st.alloc(8, 'heap', 'arg%d' % k))
        area = st.alloc(8 * len(args) + 8, 'heap', 'arguments')
        for k, a in enumerate(args):
            ring.setcell(st, area, 8 * k, a)
        ap = st.alloc(24, 'heap', 'va_list')
        ring.setcell(st, ap, 0, 48, 4)
        ring.setcell(st, ap, 4, 304, 4)
        ring.setcell(st, ap, 8, area)
        ring.setcell(st, ap, 16, 0)
        fmt = self.bytes_(st, f)
        want = self.expected(f, args)
        if how == 'stream':
            o = self.stream(st)
            call = ('element_vfprintf', o, fmt, ap)
        else:
            o, n = self.page(st)
            call = ('element_vsnprintf', o, n, fmt, ap)
        h = heap(st, [fmt, ap, area, o] + args)
        for s, r in self.fn(st, *call):
            if not self.path_ok(s):
                continue
            g = s.objs[o.obj].ghost
            self.check_eq(s, 'length of the whole text is returned', ex.as_s(s, r, 32), g.end())
            got = []
            for _, l, c in g.pieces:
                if isinstance(c, bytes):
                    if c and got and isinstance(got[-1], bytes):
                        got[-1] += c
                    elif c:
                        got.append(c)
                elif c[0] == 'txt':
                    got.append(('el', c[3], c[2]))
                else:
                    got.append(c)
            ok = len(got) == len(want)
            for x, y in zip(got, want):
                if isinstance(y, bytes) or y[0] == 'fmt':
                    ok &= x == y
                else:
                    ok &= isinstance(x, tuple) and x[0] == 'el' and (x[1] - vals[y[1].obj]).is_zero() and (x[2] - 10).is_zero()
            self.flag('text and conversions in order', ok, 'got %r want %r' % (got, want))
            if how != 'stream' and not g.pieces:
                self.flag('buffer is terminated', False)
            self.no_leak(s, h, None, call[0])

    def body(self):
        for f in self.FORMATS:
            for how in ('stream', 'buffer'):
                self.case('%s printing of %r' % (how, f.decode()), self.printed, f, how)
