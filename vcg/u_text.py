"""Parameter text (C12): the scanner over buffers of any length and content, the table built from the tokens,
the conversion of entries, and what every family reads and writes."""
from .unit import *
from .loops import LoopInv, View
from .ir import IntT, PtrT
from .u_gen import GenUnit
from .poly import fresh_name

WS = (32, 9, 13, 10)
DELIM = WS + (ord('<'), ord('/'), ord('>'))


def oneof(c, cs):
    return z3.Or(*[c == k for k in cs])


class Bytes:
    """bytes at arr[0 .. cap); reading runs `seen` on the index"""

    def __init__(self, arr, cap, seen=None, ro=False):
        self.arr, self.cap, self.seen, self.ro = arr, P(cap), seen, ro

    def havocked(self):
        return Bytes(z3.Array(fresh_name('by'), z3.IntSort(), z3.IntSort()), self.cap, self.seen, self.ro)

    def need(self, ex, st, i, what):
        r = ex.check(st, [z3.Not(z3.And(i >= 0, i < to_z3(self.cap)))])
        if r == z3.sat:
            raise MemError("%s outside the buffer" % what)
        if r != z3.unsat:
            raise Unsupported("[limit] %s not shown inside the buffer" % what)

    def w_load(self, ex, st, o, off, ty, n):
        if n != 1:
            raise Unsupported("wide read of text")
        i = to_z3(P(off))
        self.need(ex, st, i, 'read')
        v = Poly.fresh('ch')
        z = to_z3(v)
        ex.assume(st, z3.And(z == z3.Select(self.arr, i), z >= -128, z <= 127))
        if self.seen:
            self.seen(ex, st, i)
        return SI(8, v, -128, 127)

    def w_store(self, ex, st, o, off, ty, n, v):
        if n != 1 or self.ro:
            raise Unsupported("write to text")
        i = to_z3(P(off))
        self.need(ex, st, i, 'write')
        o.ghost = Bytes(z3.Store(self.arr, i, to_z3(ex.as_s(st, v, 8))), self.cap, self.seen, self.ro)

    def w_realloc(self, ex, st, p, n):
        if st.objs[p.obj].freed:
            raise MemError("realloc of freed storage")
        cap = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        q = st.alloc(None, 'heap', 'buf')
        m = z3.If(to_z3(cap) < to_z3(self.cap), to_z3(cap), to_z3(self.cap))
        j = z3.Int('j!lam')
        lost = z3.Array(fresh_name('lost'), z3.IntSort(), z3.IntSort())
        st.wobj(q.obj).ghost = Bytes(z3.Lambda([j], z3.If(j < m, z3.Select(self.arr, j), z3.Select(lost, j))), cap)
        st.wobj(p.obj).freed = True
        return q


class TextUnit(GenUnit):
    def inp(self, L):
        """offset of the local `input`"""
        p = L.arg('input')
        if not isinstance(p, Ptr) or p.obj != self.buf.obj:
            raise Unsupported("input does not point into the text")
        return P(p.off)


class SkipLoop(LoopInv):
    """white space and comments: the scanner is in the mode the text prescribes at this position"""

    def mode(self, L):
        u = self.unit
        i = to_z3(u.inp(L))
        for m in (0, 1):
            if L.ex.check(L.st, [u.M(i) != m]) == z3.unsat:
                return m
        return None

    def havoc(self, L):
        u = self.unit
        i = Poly.fresh('pos')
        z = to_z3(i)
        L.ex.store(L.st, L.ptr('input.addr'), PtrT(), Ptr(u.buf.obj, i), L.fr.fn.mod)
        L.assume(z3.And(z >= to_z3(u.i0), z <= to_z3(u.len), u.M(z) == L.st.data['mode', self.idx]))

    def check(self, L, tag):
        u = self.unit
        m = self.mode(L)
        z = to_z3(u.inp(L))
        if tag == 'entry':
            if m is None:
                raise Unsupported("loop entered in neither mode")
            L.st.data['mode', self.idx] = m
            u.goal(L.st, 'scanner where the text says (loop entry)', z3.And(u.M(z) == m, z >= to_z3(u.i0), z <= to_z3(u.len)))
            return
        u.goal(L.st, 'scanner where the text says (next character)', z3.And(u.M(z) == L.st.data['mode', self.idx], z >= to_z3(u.i0), z <= to_z3(u.len)))


class WordLoop(LoopInv):
    """buf[j] = text[p + j] for j < i, none of them but the first a delimiter"""

    def facts(self, i, arr, p):
        u = self.unit
        j = u.J
        return z3.Implies(z3.And(j >= 0, j < i), z3.And(z3.Select(arr, j) == z3.Select(u.S, p + j), u.inside(p + j), z3.Implies(j > 0, z3.Not(oneof(z3.Select(u.S, p + j), DELIM)))))

    def havoc(self, L):
        u, st, M = self.unit, L.st, L.fr.fn.mod
        i, n, p = Poly.fresh('i'), Poly.fresh('n'), st.data['start']
        zi, zn = to_z3(i), to_z3(n)
        L.set_int('i', i, 0, 1 << 30)
        L.set_int('n', n, 1, 1 << 30)
        L.assume(z3.And(zi >= 0, zi < zn))
        b = L.ex.load(st, L.ptr('buf'), PtrT(), M)
        st.wobj(b.obj).freed = True
        nb = st.alloc(None, 'heap', 'buf')
        arr = z3.Array(fresh_name('buf'), z3.IntSort(), z3.IntSort())
        st.wobj(nb.obj).ghost = Bytes(arr, n)
        L.ex.store(st, L.ptr('buf'), PtrT(), nb, M)
        c = Poly.fresh('c')
        L.ex.store(st, L.ptr('c'), IntT(8), SI(8, c, -128, 127), M)
        # c is the character after the i copied ones and lies before the position read next
        L.assume(z3.And(to_z3(c) >= -128, to_z3(c) <= 127, to_z3(c) == z3.Select(u.S, to_z3(p) + zi), u.inside(to_z3(p) + zi), to_z3(p) + zi < to_z3(u.len)))
        L.assume(z3.Implies(zi > 0, z3.Not(oneof(to_z3(c), DELIM))))
        L.assume(self.facts(zi, arr, to_z3(p)))
        L.ex.store(st, L.ptr('input.addr'), PtrT(), Ptr(u.buf.obj, p + i + 1), M)
        st.data['wl'] = (i, n)
        st.data['hb'] = nb.obj

    def keeps(self, L):
        return [(L.st.data['hb'], 'ghost', 0)]

    def check(self, L, tag):
        u, st, M = self.unit, L.st, L.fr.fn.mod
        if tag == 'entry':
            p = u.inp(L) - 1
            st.data['start'] = p
            u.goal(st, 'word starts at the first character that is neither skipped nor in a comment', z3.And(u.M(to_z3(p)) == 0, u.inside(to_z3(p)), z3.Not(oneof(z3.Select(u.S, to_z3(p)), WS + (35,)))))
        p = st.data['start']
        i, n = L.int('i'), L.int('n')
        c = L.ex.as_s(st, L.ex.load(st, L.ptr('c'), IntT(8), M), 8)
        b = L.ex.load(st, L.ptr('buf'), PtrT(), M)
        g = st.objs[b.obj].ghost
        zi, zp = to_z3(i), to_z3(p)
        u.goal(st, 'room for the next character and the terminator (%s)' % tag, z3.And(zi >= 0, zi < to_z3(n)))
        if isinstance(g, Bytes):
            u.goal(st, 'capacity is that allocated (%s)' % tag, to_z3(n) == to_z3(g.cap))
            u.goal(st, 'characters copied (%s)' % tag, self.facts(zi, g.arr, zp))
        else:
            u.ieq(st, 'capacity is that allocated (%s)' % tag, n, P(st.objs[b.obj].size))
            u.ieq(st, 'nothing copied yet', i, P(0))
        u.goal(st, 'character at hand is the next one (%s)' % tag, z3.And(to_z3(c) == z3.Select(u.S, zp + zi), u.inside(zp + zi), zp + zi < to_z3(u.len)))
        u.ieq(st, 'position follows it (%s)' % tag, u.inp(L), p + i + 1)
        if tag != 'entry':
            u.goal(st, 'delimiters end the word', z3.Not(oneof(to_z3(c), DELIM)))
            hb = st.data['hb']
            if b.obj != hb:
                # storage moved by realloc: name it as at the head of the loop
                st.wobj(hb).freed = False
                st.wobj(hb).ghost = g
                st.wobj(b.obj).freed = True
                L.ex.store(st, L.ptr('buf'), PtrT(), Ptr(hb, 0), M)


class TokenUnit(TextUnit):
    name = 'scanner of parameter text of any length and content'

    def __init__(self, **k):
        super().__init__(**k)
        self.ex.contracts['strchr'] = self.c_strchr
        self.ex.z3timeout = 3000
        self.assumptions.add("words and texts shorter than 2^30 bytes; without a length the text is terminated by a zero byte")

    def c_strchr(self, ex, st, a):
        s = cstr(st, a[0])
        c = to_z3(ex.as_s(st, a[1], 32))
        b = oneof(c, tuple(s) + (0,))
        t = ex.check(st, [z3.Not(b)]) == z3.unsat
        f = ex.check(st, [b]) == z3.unsat
        if t or f:
            return a[0] if t else 0
        return ex.fork_value(st, b, a[0], 0) if hasattr(ex, 'fork_value') else self.forked(ex, st, b, a[0])

    def forked(self, ex, st, b, p):
        s1, s2 = st, st.fork()
        ex.assume(s1, b)
        ex.assume(s2, z3.Not(b))
        return [(s1, p), (s2, 0)]

    def inside(self, i):
        """a character of the text is there"""
        c = z3.Select(self.S, i) != 0
        return z3.And(i < to_z3(self.len), c) if self.bounded else c

    def seen(self, ex, st, i):
        """how the text is read: 0 between words, 1 in a comment, 2 in a word"""
        c, m = z3.Select(self.S, i), self.M(i)
        ok = self.inside(i)
        nxt = z3.If(z3.Not(ok), 3, z3.If(m == 0, z3.If(oneof(c, WS), 0, z3.If(c == 35, 1, 2)), z3.If(m == 1, z3.If(c == 10, 0, 1), m)))
        ex.assume(st, self.M(i + 1) == nxt)

    def token(self, bounded, had):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        self.bounded = bounded
        self.S = z3.Array('text', z3.IntSort(), z3.IntSort())
        self.M = z3.Function('mode', z3.IntSort(), z3.IntSort())
        self.J = z3.Int('j!any')
        self.len, self.i0 = Poly.var('len'), Poly.var('i0')
        zl, z0 = to_z3(self.len), to_z3(self.i0)
        ex.assume(st, z3.And(zl >= 0, zl < 1 << 29, z0 >= 0, z0 <= zl, self.M(z0) == 0))
        self.buf = buf = st.alloc(None, 'heap', 'text')
        st.wobj(buf.obj).ghost = Bytes(self.S, self.len if bounded else self.len + 1, self.seen, True)
        if not bounded:
            # the first zero byte is at len
            ex.assume(st, z3.Select(self.S, zl) == 0)
        M = modules()['ecc/param.c']
        o = M.struct_offsets('token_s')
        tok = st.alloc(16, 'heap', 'token')
        ring.setcell(st, tok, o['type'], 0, 4)
        if had:
            w = st.alloc(8, 'heap', 'previous word')
            ring.setcell(st, tok, o['s'], w)
        else:
            ring.setcell(st, tok, o['s'], 0)
        fn = 'token_get'
        for k in range(3):
            SkipLoop(self, fn, k)
        WordLoop(self, fn, 3)
        h = heap(st, [tok, buf])
        kinds = set()
        end = Ptr(buf.obj, self.len) if bounded else 0
        for s, rv in self.fn(st, fn, tok, Ptr(buf.obj, self.i0), end, mod='ecc/param.c'):
            if not self.path_ok(s):
                continue
            if not isinstance(rv, Ptr) or rv.obj != buf.obj:
                self.flag('returns a position in the text', False)
                continue
            r = to_z3(P(rv.off))
            ty = ex.load(s, Ptr(tok.obj, o['type']), IntT(32), M)
            sp = ex.load(s, Ptr(tok.obj, o['s']), PtrT(), M)
            if ty == 5:
                kinds.add('end')
                self.goal(s, 'end of the text is reported only there, outside a word', z3.And(z3.Not(self.inside(r)), z3.Or(self.M(r) == 0, self.M(r) == 1), r >= z0, r <= zl))
                self.flag('word of the caller kept', (isinstance(sp, Ptr) and had and sp.obj == w.obj and not s.objs[w.obj].freed) or (not had and sp == 0))
            elif ty == 4:
                kinds.add('word')
                p, (i, n) = s.data['start'], s.data['wl']
                g = s.objs[sp.obj].ghost if isinstance(sp, Ptr) else None
                if not isinstance(g, Bytes):
                    raise Unsupported("word is not the buffer built")
                # length: first zero of the word
                zp = to_z3(p)
                k = z3.Int('len!')
                k0 = to_z3(i) + 1
                self.goal(s, 'word ends with a zero byte inside its storage', z3.And(k0 < to_z3(g.cap), z3.Select(g.arr, k0) == 0))
                j = self.J
                self.goal(s, 'word is the text from its start, without delimiters', z3.Implies(z3.And(j >= 0, j < k0), z3.And(z3.Select(g.arr, j) == z3.Select(self.S, zp + j), z3.Select(g.arr, j) != 0,
                                                                                              z3.Implies(j > 0, z3.Not(oneof(z3.Select(g.arr, j), DELIM))))))
                e = zp + k0
                self.goal(s, 'word stops at a delimiter or the end', z3.Or(z3.Not(self.inside(e)), oneof(z3.Select(self.S, e), DELIM)))
                self.goal(s, 'reading goes on after the delimiter', z3.And(r >= e, r <= zl, z3.Or(r == e, z3.And(r == e + 1, self.inside(e)))))
                self.goal(s, 'the word is not read again', z3.Implies(self.inside(e), z3.Or(r == e + 1, oneof(z3.Select(self.S, e), WS))))
                if had:
                    self.flag('previous word released', s.objs[w.obj].freed)
            else:
                self.flag('token is a word or the end', False, repr(ty))
            self.no_leak(s, h, [x for x in (sp,) if isinstance(x, Ptr)], fn)
        self.flag('words and the end are both reached', kinds == {'end', 'word'}, bad='unknown')

    def body(self):
        for bounded in (True, False):
            for had in (True, False):
                self.case('token of a text %s, %s' % ('given with its length' if bounded else 'ended by a zero byte', 'with an earlier word' if had else 'first'), self.token, bounded, had)


def cstr(st, p):
    """bytes of a constant string"""
    o = st.objs[p.obj]
    out = []
    for k in range(p.off, p.off + 200):
        c = o.cells.get(k)
        v = c[1] if c else None
        if v is None and o.fill is not None:
            v = 0
        if not isinstance(v, int):
            raise Unsupported("string is not constant")
        if v == 0:
            return bytes(out)
        out.append(v & 255)
    raise Unsupported("string does not end")


class Word:
    """a string, known by its content only: equal numbers, equal strings"""

    def __init__(self, v):
        self.id = P(v)

    def havocked(self):
        return Word(Poly.fresh('word'))


class Strings(TextUnit):
    """strings as numbers; tables as functions from names to strings or numbers"""

    def __init__(self, **k):
        super().__init__(**k)
        self.names = {}
        self.ex.contracts = dict(self.ex.contracts)
        C = self.ex.contracts
        C['strcmp'] = self.c_strcmp
        C['pbc_strdup'] = self.c_strdup
        self.ex.z3timeout = 3000
        self.assumptions.add("strcmp decides equality of strings and pbc_strdup copies one")
        self.CK = z3.Function('coeffkey', z3.IntSort(), z3.IntSort())

    def const(self, b):
        return self.names.setdefault(b, 1000 + len(self.names))

    def text(self, i):
        return next((b.decode('latin1') for b, n in self.names.items() if n == i), None)

    def wid(self, st, p):
        if not isinstance(p, Ptr):
            raise MemError("string is null")
        o = st.objs[p.obj]
        if o.freed:
            raise MemError("string is released")
        if isinstance(o.ghost, Word):
            if p.off != 0:
                raise Unsupported("inside of a string")
            return o.ghost.id
        return P(self.const(cstr(st, p)))

    def word(self, st, v, nm='string'):
        p = st.alloc(None, 'heap', nm)
        st.wobj(p.obj).ghost = Word(v)
        return p

    def c_strcmp(self, ex, st, a):
        d = self.wid(st, a[0]) - self.wid(st, a[1])
        if d.is_const():
            return 0 if d.is_zero() else 1
        r = Poly.fresh('cmp')
        z = to_z3(r)
        ex.assume(st, z3.And((z == 0) == (to_z3(d) == 0), z >= -(1 << 31), z < 1 << 31))
        return SI(32, r, -(1 << 31), (1 << 31) - 1)

    def c_strdup(self, ex, st, a):
        return self.word(st, self.wid(st, a[0]), 'copy')

    def c_sprintf(self, ex, st, a):
        """one conversion %d"""
        f = cstr(st, a[1])
        if f.count(b'%') != 1 or b'%d' not in f:
            raise Unsupported("format " + repr(f))
        room = st.objs[a[0].obj].size
        v = ex.as_s(st, a[2], 32)
        if v.is_const():
            s = f.replace(b'%d', b'%d' % int(v.const_value()))
            w, n = self.const(s), len(s)
        elif f == b'coeff%d':
            w, n = Poly.fresh('ck'), 5
            ex.assume(st, to_z3(w) == self.CK(to_z3(v)))
            hi = 1
            while ex.check(st, [z3.Or(to_z3(v) >= 10 ** hi, to_z3(v) < 0)]) != z3.unsat:
                hi += 1
                if hi > 10:
                    hi = 11
                    break
            n += hi
        else:
            raise Unsupported("format " + repr(f))
        if a[0].off != 0:
            raise Unsupported("name inside a buffer")
        if isinstance(room, int) and n + 1 > room:
            raise MemError("name of %d bytes in a buffer of %d" % (n + 1, room))
        o = st.wobj(a[0].obj)
        o.ghost = Word(w)
        return SI(32, Poly.fresh('len'), 0, 1 << 20)


class TabLoop(LoopInv):
    """after i pairs the table is the one the first 2i words prescribe"""

    def pos(self, L):
        u = self.unit
        return to_z3(u.inp(L))

    def havoc(self, L):
        u, st, M = self.unit, L.st, L.fr.fn.mod
        i = Poly.fresh('i')
        z = to_z3(i)
        L.assume(z3.And(z >= 0, 2 * z <= to_z3(u.N)))
        p = Poly.fresh('pos')
        L.assume(to_z3(p) == u.pos(2 * z))
        L.ex.store(st, L.ptr('input.addr'), PtrT(), Ptr(u.buf.obj, p), M)
        g = Tab(z3.Array(fresh_name('has'), z3.IntSort(), z3.BoolSort()), z3.Array(fresh_name('val'), z3.IntSort(), z3.IntSort()))
        st.wobj(u.tab.obj).ghost = g
        st.data['tab'], st.data['pairs'], st.data['calls'] = g, i, 2 * i
        w = u.word(st, Poly.fresh('last'), 'last word')
        o = M.struct_offsets('token_s')
        t = L.ptr('tok')
        ring.setcell(st, t, o['s'], w)
        L.ex.store(st, Ptr(t.obj, o['type']), IntT(32), SI(32, Poly.fresh('type'), 0, 5), M)
        st.data['hw'] = w.obj
        st.data['stored'] = None

    def keeps(self, L):
        return [(L.st.data['hw'], 'freed', 0), (self.unit.tab.obj, 'ghost', 0), (self.unit.tab.obj, 'cell', 0)]

    def check(self, L, tag):
        u, st, M = self.unit, L.st, L.fr.fn.mod
        g = st.objs[u.tab.obj].ghost
        o = M.struct_offsets('token_s')
        t = L.ptr('tok')
        s = L.ex.load(st, Ptr(t.obj, o['s']), PtrT(), M)
        if tag == 'entry':
            u.flag('no word yet', s == 0 and st.data['calls'] == P(0))
            u.goal(st, 'table starts empty', z3.Not(z3.Select(g.H, u.J)))
            u.ieq(st, 'reading starts at the beginning', u.inp(L), P(0))
            return
        g0, i = st.data['tab'], st.data['pairs']
        zi = to_z3(i)
        u.ieq(st, 'a pair of words per entry', st.data['calls'], 2 * i + 2)
        u.goal(st, 'both words are there', 2 * zi + 2 <= to_z3(u.N))
        u.goal(st, 'reading goes on where it stopped', self.pos(L) == u.pos(2 * zi + 2))
        k, v = u.W(2 * zi), u.W(2 * zi + 1)
        u.goal(st, 'exactly the pair read is entered', z3.And(g.H == z3.Store(g0.H, k, True), g.V == z3.Store(g0.V, k, v)))
        u.settle(st, s)
        if isinstance(s, Ptr):
            st.wobj(s.obj).freed = True         # the word held is the one at the loop head
            st.wobj(st.data['hw']).freed = False
            ring.setcell(st, t, o['s'], Ptr(st.data['hw'], 0))


class Tab:
    def __init__(self, H, V):
        self.H, self.V = H, V


class TableUnit(Strings):
    name = 'table of the words of a parameter text'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['token_get'] = self.c_token
        C['symtab_has'] = self.c_has
        C['symtab_at'] = self.c_at
        C['symtab_put'] = self.c_put
        self.N = Poly.var('N')
        self.W = z3.Function('w', z3.IntSort(), z3.IntSort())
        self.pos = z3.Function('pos', z3.IntSort(), z3.IntSort())
        self.J = z3.Int('j!any')
        self.assumptions.add("token_get delivers the words of the text one after another and then the end (its own contract)")
        self.assumptions.add("symbol tables behave as finite maps (C18)")

    def c_token(self, ex, st, a):
        M = modules()['ecc/param.c']
        o = M.struct_offsets('token_s')
        tok, inp, end = a
        n = st.data['calls']
        if not isinstance(inp, Ptr) or inp.obj != self.buf.obj:
            raise Unsupported("token read elsewhere")
        want = 0 if self.limit is None else self.limit
        if self.limit is None:
            ok = end == 0
        else:
            ok = isinstance(end, Ptr) and end.obj == self.buf.obj and ex.check(st, [to_z3(P(end.off)) != to_z3(self.limit)]) == z3.unsat
        self.flag('end of the text passed to the scanner', ok)
        self.goal(st, 'scanner continues where it stopped', to_z3(P(inp.off)) == self.pos(to_z3(n)))
        old = ex.load(st, Ptr(tok.obj, tok.off + o['s']), PtrT(), M)
        st.data['calls'] = n + 1
        e = st.fork()
        ex.assume(st, to_z3(n) < to_z3(self.N))
        ex.assume(e, to_z3(n) >= to_z3(self.N))
        p = Poly.fresh('pos')
        out = []
        if ex.check(st, []) != z3.unsat:
            ring.setcell(st, tok, tok.off + o['type'], 4, 4)
            if isinstance(old, Ptr):
                if st.objs[old.obj].freed:
                    raise MemError("word released twice")
                st.wobj(old.obj).freed = True
            w = Poly.fresh('word')
            ex.assume(st, z3.And(to_z3(w) == self.W(to_z3(n)), to_z3(p) == self.pos(to_z3(n + 1))))
            ring.setcell(st, tok, tok.off + o['s'], self.word(st, w, 'word'))
            out.append((st, Ptr(self.buf.obj, p)))
        if ex.check(e, []) != z3.unsat:
            ring.setcell(e, tok, tok.off + o['type'], 5, 4)
            out.append((e, Ptr(self.buf.obj, p)))
        return out

    def c_has(self, ex, st, a):
        g = st.objs[a[0].obj].ghost
        return ex.bool_si(st, z3.Select(g.H, to_z3(self.wid(st, a[1]))), 32)

    def c_at(self, ex, st, a):
        g = st.objs[a[0].obj].ghost
        k = to_z3(self.wid(st, a[1]))
        b = z3.Select(g.H, k)
        n = st.fork()
        ex.assume(st, b)
        ex.assume(n, z3.Not(b))
        out = []
        if ex.check(st, []) != z3.unsat:
            v = Poly.fresh('v')
            ex.assume(st, to_z3(v) == z3.Select(g.V, k))
            p = self.word(st, v, 'stored')
            ring.setcell(st, self.tab, 0, p)
            st.data['stored'] = (k, p.obj)
            out.append((st, p))
        if ex.check(n, []) != z3.unsat:
            out.append((n, 0))
        return out

    def c_put(self, ex, st, a):
        t, d, key = a
        g = st.objs[t.obj].ghost
        k = to_z3(self.wid(st, key))
        v = to_z3(self.wid(st, d))
        if st.objs[d.obj].kind != 'heap':
            raise Unsupported("entry is not allocated")
        old = st.data.get('stored')
        gone = old is not None and st.objs[old[1]].freed and ex.check(st, [old[0] != k]) == z3.unsat
        if not gone:
            self.leakflag(st, 'value replaced is released first', ex.check(st, [z3.Select(g.H, k)]) == z3.unsat)
        else:
            self.leakflag(st, 'value replaced is released first', True)
        st.wobj(t.obj).ghost = Tab(z3.Store(g.H, k, True), z3.Store(g.V, k, v))
        ring.setcell(st, self.tab, 0, d)
        st.data['put'] = d.obj

    def leakflag(self, st, name, ok):
        l, self.leak = self.leak, False
        self.flag(name, ok)
        self.leak = l

    def settle(self, st, held):
        """the entry belongs to the table: it must be live; then forget it"""
        d = st.data.get('put')
        if d is None:
            raise Unsupported("nothing entered")
        self.leakflag(st, 'entry is live and not the word of the scanner', not st.objs[d].freed and not (isinstance(held, Ptr) and held.obj == d))
        st.wobj(d).freed = True
        st.data['put'] = None

    def table(self, bounded):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        M = modules()['ecc/param.c']
        ex.assume(st, z3.And(to_z3(self.N) >= 0, self.pos(0) == 0))
        self.buf = st.alloc(None, 'heap', 'text')
        self.tab = st.alloc(8, 'heap', 'table')
        ring.setcell(st, self.tab, 0, 0)
        H = z3.K(z3.IntSort(), z3.BoolVal(False))
        st.wobj(self.tab.obj).ghost = Tab(H, z3.Array('v0', z3.IntSort(), z3.IntSort()))
        st.data['calls'] = P(0)
        lim = 0
        self.limit = None
        if bounded:
            self.limit = Poly.var('limit')
            lim = SI(64, self.limit, 1, 1 << 40)
            ex.assume(st, z3.And(to_z3(self.limit) >= 1, to_z3(self.limit) <= 1 << 40))
        TabLoop(self, 'read_symtab', 0)
        h = heap(st, [self.tab, self.buf])
        n = 0
        for s, _ in self.fn(st, 'read_symtab', self.tab, self.buf, lim, mod='ecc/param.c'):
            if not self.path_ok(s):
                continue
            n += 1
            i = to_z3(s.data['pairs'])
            g = s.objs[self.tab.obj].ghost
            self.goal(s, 'stops only when no further pair is there', 2 * i + 2 > to_z3(self.N))
            self.goal(s, 'table is that of the pairs read', z3.And(g.H == s.data['tab'].H, g.V == s.data['tab'].V))
            self.no_leak(s, h, None, 'read_symtab')
        self.flag('ends', n > 0, bad='unknown')

    def body(self):
        for b in (True, False):
            self.case('words of a text %s' % ('given with its length' if b else 'ended by a zero byte'), self.table, b)


class LookupUnit(Strings):
    """entries as numbers: found, and a numeral, and in the range of an int"""
    name = 'conversion of table entries'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['symtab_has'] = self.c_has
        C['symtab_at'] = self.c_at
        C['__gmpz_set_str'] = self.c_set_str
        C['__gmpz_fits_sint_p'] = self.c_fits

        def get_si(ex, st, a):
            v = gmp.mget(ex, st, a[0])
            z, f = to_z3(v), Poly.fresh('si')
            ex.assume(st, z3.And(to_z3(f) >= -(1 << 63), to_z3(f) < 1 << 63, z3.Implies(z3.And(z >= -(1 << 63), z < 1 << 63), to_z3(f) == z)))
            return SI(64, f, -(1 << 63), (1 << 63) - 1)
        C['__gmpz_get_si'] = get_si
        self.H = z3.Function('has', z3.IntSort(), z3.BoolSort())
        self.V = z3.Function('val', z3.IntSort(), z3.IntSort())
        self.A = z3.Function('numeral', z3.IntSort(), z3.BoolSort())
        self.Z = z3.Function('number', z3.IntSort(), z3.IntSort())
        self.assumptions.add("mpz_set_str accepts exactly the numerals of base 0 and yields their value")
        self.assumptions.add("symbol tables behave as finite maps (C18)")

    def c_has(self, ex, st, a):
        return ex.bool_si(st, self.H(to_z3(self.wid(st, a[1]))), 32)

    def c_at(self, ex, st, a):
        k = to_z3(self.wid(st, a[1]))
        n = st.fork()
        ex.assume(st, self.H(k))
        ex.assume(n, z3.Not(self.H(k)))
        out = []
        if ex.check(st, []) != z3.unsat:
            v = Poly.fresh('v')
            ex.assume(st, to_z3(v) == self.V(k))
            p = st.alloc(None, 'global', 'entry')
            st.wobj(p.obj).ghost = Word(v)
            out.append((st, p))
        if ex.check(n, []) != z3.unsat:
            out.append((n, 0))
        return out

    def c_set_str(self, ex, st, a):
        w = to_z3(self.wid(st, a[1]))
        if a[2] != 0:
            raise Unsupported("numerals of another base")
        v, r, old = Poly.fresh('num'), Poly.fresh('rc'), gmp.mget(ex, st, a[0])
        n = st.fork()
        ex.assume(st, z3.And(self.A(w), to_z3(v) == self.Z(w)))
        ex.assume(n, z3.Not(self.A(w)))
        gmp.mset(ex, st, a[0], v)
        gmp.mset(ex, n, a[0], Poly.fresh('junk'))
        out = []
        if ex.check(st, []) != z3.unsat:
            out.append((st, 0))
        if ex.check(n, []) != z3.unsat:
            out.append((n, (1 << 32) - 1))
        return out

    def c_fits(self, ex, st, a):
        v = to_z3(gmp.mget(ex, st, a[0]))
        return ex.bool_si(st, z3.And(v >= -(1 << 31), v < 1 << 31), 32)

    def one_entry(self, fn):
        ex, st = self.ex, State()
        tab = st.alloc(8, 'heap', 'table')
        key = self.word(st, Poly.var('key'), 'key')
        k = to_z3(Poly.var('key'))
        M = modules()['ecc/param.c']
        old = Poly.var('old')
        if fn == 'lookup_mpz':
            z = self.mpz(st, old)
        else:
            z = st.alloc(4, 'heap', 'n')
            ex.assume(st, z3.And(to_z3(old) >= -(1 << 31), to_z3(old) < 1 << 31))
            ex.store(st, z, IntT(32), SI(32, old, -(1 << 31), (1 << 31) - 1), M)
        h = heap(st, [tab, key, z])
        num = self.Z(self.V(k))
        good = z3.And(self.H(k), self.A(self.V(k)))
        if fn == 'lookup_int':
            good = z3.And(good, num >= -(1 << 31), num < 1 << 31)
        seen = set()
        for s, r in self.fn(st, fn, z, tab, key):
            if not self.path_ok(s):
                continue
            self.truth(s, 'nonzero exactly for a missing entry or one that is not such a number', r, z3.Not(good))
            g = gmp.mget(ex, s, z) if fn == 'lookup_mpz' else ex.as_s(s, ex.load(s, z, IntT(32), M), 32)
            self.goal(s, 'value is that of the entry', z3.Implies(good, to_z3(g) == num))
            self.no_leak(s, h, None, fn)

    def body(self):
        for fn in ('lookup_mpz', 'lookup_int'):
            self.case(fn, self.one_entry, fn)


FAM = {
    'a': ('ecc/a_param.c', 'q r h', 'exp2 exp1 sign1 sign0'),
    'a1': ('ecc/a_param.c', 'p n', 'l'),
    'd': ('ecc/d_param.c', 'q n h r a b nk hk nqr', 'k'),
    'e': ('ecc/e_param.c', 'q r h a b', 'exp2 exp1 sign1 sign0'),
    'f': ('ecc/f_param.c', 'q r b beta alpha0 alpha1', ''),
    'g': ('ecc/g_param.c', 'q n h r a b nk hk nqr coeff0 coeff1 coeff2 coeff3 coeff4', ''),
    'i': ('ecc/eta_T_3.c', 'n n2', 'm t'),
}
INT_LO, INT_HI = -(1 << 31), (1 << 31) - 1


class Coeffs:
    """integers at 16 j for lo <= j < hi initialised, values in arr"""

    def __init__(self, arr, lo, hi, cap):
        self.arr, self.lo, self.hi, self.cap = arr, P(lo), P(hi), P(cap)

    def w_load(self, *a):
        raise Unsupported("coefficient read as memory")

    w_store = w_load

    def w_realloc(self, ex, st, p, n):
        if st.objs[p.obj].freed:
            raise MemError("realloc of released storage")
        c = P(n) if isinstance(n, int) else ex.as_u(st, n, 64)
        q = Poly({m: k // 16 for m, k in c.t.items()})
        if not (q * 16 == c):
            raise Unsupported("size is not one of integers")
        r = ex.check(st, [to_z3(q) < to_z3(self.hi)])
        if r == z3.sat:
            raise MemError("initialised integers lost by realloc")
        if r != z3.unsat:
            raise Unsupported("[limit] realloc")
        st.wobj(p.obj).ghost = Coeffs(self.arr, self.lo, self.hi, q)
        return p

    def havocked(self):
        return self


class CoeffLoop(LoopInv):
    """i coefficients read; an error is that of a field before or of the last one"""

    def data(self, L):
        return L.ex.load(L.st, Ptr(self.unit.par.obj, self.unit.po['data']), PtrT(), L.fr.fn.mod)

    def havoc(self, L):
        u, st, M = self.unit, L.st, L.fr.fn.mod
        i, e = Poly.fresh('i'), Poly.fresh('e')
        zi, ze, e0 = to_z3(i), to_z3(e), to_z3(st.data['err0'])
        d = to_z3(st.data['d'])
        L.set_int('i', i, 0, 1 << 30)
        L.set_int('err', e, 0, 1 << 20)
        L.assume(z3.And(zi >= 0, z3.Implies(zi == 0, ze == e0), z3.Or(zi == 0, zi <= d)))
        L.assume(z3.Implies(zi > 0, z3.And(e0 == 0, ze == z3.If(u.OKc(u.CK(zi - 1)), 0, 1))))
        L.assume(u.prefix(zi - 1))
        c = u.coeffs(st)
        arr = z3.Array(fresh_name('co'), z3.IntSort(), z3.IntSort())
        st.wobj(c.obj).ghost = Coeffs(arr, 0, i, i)
        L.assume(u.values(arr, zi))
        for nm in ('s',):
            o = st.wobj(L.ptr(nm).obj)
            o.ghost = None
        st.data['i'] = i

    def keeps(self, L):
        u = self.unit
        return [(u.coeffs(L.st).obj, 'ghost', 0), (L.ptr('s').obj, 'ghost', 0)]

    def check(self, L, tag):
        u, st = self.unit, L.st
        i, e = L.int('i'), L.int('err')
        if tag == 'entry':
            st.data['err0'] = e
            st.data['d'] = L.int('d')
            u.ieq(st, 'coefficients from the first', i, P(0))
            o = modules()['ecc/d_param.c'].struct_offsets('d_param_s')
            c = u.coeffs(st)
            if c == 0:
                c = st.alloc(None, 'heap', 'coefficients')
                st.wobj(c.obj).ghost = Coeffs(z3.Array('co0', z3.IntSort(), z3.IntSort()), 0, 0, 0)
                dd = self.data(L)
                ring.setcell(st, dd, o['coeff'], c)
            return
        g = st.objs[u.coeffs(st).obj].ghost
        zi, ze, e0, d = to_z3(i), to_z3(e), to_z3(st.data['err0']), to_z3(st.data['d'])
        u.ieq(st, 'next coefficient', i, st.data['i'] + 1)
        u.goal(st, 'one integer initialised per coefficient', z3.And(to_z3(g.lo) == 0, to_z3(g.hi) == zi, to_z3(g.cap) >= zi))
        u.goal(st, 'not past the last', zi <= d)
        u.goal(st, 'no earlier error', z3.And(e0 == 0, ze == z3.If(u.OKc(u.CK(zi - 1)), 0, 1)))
        u.goal(st, 'earlier coefficients found', u.prefix(zi - 1))
        u.goal(st, 'coefficient j is entry coeff j', u.values(g.arr, zi))


class OutLoop(LoopInv):
    def havoc(self, L):
        u, st = self.unit, L.st
        i = Poly.fresh('i')
        L.set_int('i', i, 0, 1 << 30)
        L.assume(z3.And(to_z3(i) >= 0, to_z3(i) <= to_z3(st.data['d'])))
        st.wobj(L.ptr('s').obj).ghost = None
        st.data['out'] = dict(st.data['out'], **{'#': i})

    def keeps(self, L):
        return [(L.ptr('s').obj, 'ghost', 0)]

    def check(self, L, tag):
        u, st = self.unit, L.st
        if tag == 'entry':
            st.data['d'] = L.int('d')
        u.ieq(st, 'coefficients written in order (%s)' % tag, st.data['out'].get('#', P(0)), L.int('i'))
        if tag != 'entry':
            u.goal(st, 'not past the last coefficient', to_z3(L.int('i')) <= to_z3(st.data['d']))


class ClearLoop(LoopInv):
    def havoc(self, L):
        u, st = self.unit, L.st
        i = Poly.fresh('i')
        L.set_int('i', i, 0, 1 << 30)
        c = st.data['co']
        g = st.objs[c].ghost
        L.assume(z3.And(to_z3(i) >= 0, to_z3(i) <= to_z3(g.hi)))
        st.wobj(c).ghost = Coeffs(g.arr, i, g.hi, g.cap)

    def keeps(self, L):
        return [(L.st.data['co'], 'ghost', 0)]

    def check(self, L, tag):
        u, st = self.unit, L.st
        g = st.objs[st.data['co']].ghost
        if u.leak or u.canary:
            l, u.leak = u.leak, False
            u.ieq(st, 'coefficients cleared in order (%s)' % tag, g.lo, L.int('i'))
            if tag != 'entry':
                u.goal(st, 'not past the last', to_z3(L.int('i')) <= to_z3(g.hi))
            u.leak = l
        else:
            u.ieq(st, 'coefficients cleared in order (%s)' % tag, g.lo, L.int('i'))
            if tag != 'entry':
                u.goal(st, 'not past the last', to_z3(L.int('i')) <= to_z3(g.hi))


class FamilyUnit(Strings):
    """what each family reads from a table and writes as text"""
    name = 'fields of the parameter families'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        C['lookup_mpz'] = self.c_lookup_mpz
        C['lookup_int'] = self.c_lookup_int
        C['param_out_type'] = self.c_out_type
        C['param_out_mpz'] = self.c_out_mpz
        C['param_out_int'] = self.c_out_int
        C['sprintf'] = self.c_sprintf
        self.oinit, self.oclear = C['__gmpz_init'], C['__gmpz_clear']
        C['__gmpz_init'] = self.c_init
        C['__gmpz_clear'] = self.c_clear
        self.OK = z3.Function('mpz_ok', z3.IntSort(), z3.BoolSort())
        self.IOK = z3.Function('int_ok', z3.IntSort(), z3.BoolSort())
        self.Z = z3.Function('number', z3.IntSort(), z3.IntSort())
        self.J = z3.Int('j!any')
        self.assumptions.add("no coefficients: a null pointer and an empty block are alike")
        self.given = None

    # ---- tables
    def OKc(self, k):
        return z3.BoolVal(True) if self.given is not None else self.OK(k)

    def prefix(self, n):
        j = self.J
        return z3.Implies(z3.And(j >= 0, j < n), self.OKc(self.CK(j)))

    def values(self, arr, n):
        """coefficients 0 .. n-1 are those of the table, as far as there"""
        j = self.J
        src = z3.Select(self.given['#'], j) if self.given is not None else self.Z(self.CK(j))
        return z3.Implies(z3.And(j >= 0, j < n, self.OKc(self.CK(j))), z3.Select(arr, j) == src)

    def coeffs(self, st):
        o = modules()['ecc/d_param.c'].struct_offsets('d_param_s')
        d = ring.getcell(st, self.par, self.po['data'])
        return ring.getcell(st, d, o['coeff'])

    def co_index(self, ex, st, p, g, what):
        if st.objs[p.obj].freed:
            raise MemError(what + " in released storage")
        off = P(p.off)
        q = Poly({m: k // 16 for m, k in off.t.items()})
        if not (q * 16 == off):
            raise Unsupported("inside of an integer")
        return q

    def within(self, ex, st, c, what):
        r = ex.check(st, [z3.Not(c)])
        if r == z3.sat:
            raise MemError(what)
        if r != z3.unsat:
            raise Unsupported("[limit] " + what)

    def c_init(self, ex, st, a):
        g = st.objs[a[0].obj].ghost
        if not isinstance(g, Coeffs):
            return self.oinit(ex, st, a)
        i = self.co_index(ex, st, a[0], g, 'mpz_init')
        self.within(ex, st, z3.And(to_z3(i) == to_z3(g.hi), to_z3(i) < to_z3(g.cap)), 'mpz_init of another integer than the next')
        st.wobj(a[0].obj).ghost = Coeffs(z3.Store(g.arr, to_z3(i), 0), g.lo, i + 1, g.cap)

    def c_clear(self, ex, st, a):
        g = st.objs[a[0].obj].ghost
        if not isinstance(g, Coeffs):
            return self.oclear(ex, st, a)
        i = self.co_index(ex, st, a[0], g, 'mpz_clear')
        self.within(ex, st, z3.And(to_z3(i) >= to_z3(g.lo), to_z3(i) < to_z3(g.hi)), 'mpz_clear of an integer not initialised')
        if ex.check(st, [to_z3(i) != to_z3(g.lo)]) != z3.unsat:
            raise Unsupported("integers cleared in another order")
        st.wobj(a[0].obj).ghost = Coeffs(g.arr, i + 1, g.hi, g.cap)

    def entry(self, ex, st, k, integer):
        """(found and a number, value)"""
        if self.given is not None:
            if k.is_const():
                v = self.given.get(int(k.const_value()))
                if v is None:
                    self.flag('name %s is written' % self.text(int(k.const_value())), False)
                    return z3.BoolVal(False), P(0)
                return z3.BoolVal(True), v
            raise Unsupported("name not known")
        z = to_z3(k)
        st.data['read'] = st.data.get('read', ()) + ((k, integer),)
        v = Poly.fresh('v')
        ex.assume(st, to_z3(v) == self.Z(z))
        ok = self.IOK(z) if integer else self.OK(z)
        if integer:
            ex.assume(st, z3.And(to_z3(v) >= INT_LO, to_z3(v) <= INT_HI))
        return ok, v

    def rc(self, ex, st, ok):
        r = Poly.fresh('rc')
        ex.assume(st, to_z3(r) == z3.If(ok, 0, 1))
        return SI(32, r, 0, 1)

    def c_lookup_mpz(self, ex, st, a):
        k = self.wid(st, a[2])
        g = st.objs[a[0].obj].ghost
        if isinstance(g, Coeffs):
            i = self.co_index(ex, st, a[0], g, 'coefficient')
            zi = to_z3(i)
            self.within(ex, st, z3.And(zi >= to_z3(g.lo), zi < to_z3(g.hi)), 'coefficient not initialised')
            if k.is_const():
                raise Unsupported("coefficient under a constant name")
            self.goal(st, 'coefficient read under its own name', to_z3(k) == self.CK(zi))
            ok = self.OKc(to_z3(k))
            src = z3.Select(self.given['#'], zi) if self.given is not None else self.Z(to_z3(k))
            junk = z3.Int(fresh_name('junk'))
            st.wobj(a[0].obj).ghost = Coeffs(z3.Store(g.arr, zi, z3.If(ok, src, junk)), g.lo, g.hi, g.cap)
            return self.rc(ex, st, ok)
        ok, v = self.entry(ex, st, k, False)
        f = Poly.fresh('f')
        ex.assume(st, z3.Implies(ok, to_z3(f) == to_z3(v)))
        gmp.mset(ex, st, a[0], f)
        return self.rc(ex, st, ok)

    def c_lookup_int(self, ex, st, a):
        k = self.wid(st, a[2])
        M = modules()['ecc/param.c']
        ok, v = self.entry(ex, st, k, True)
        f = Poly.fresh('f')
        ex.assume(st, z3.And(to_z3(f) >= INT_LO, to_z3(f) <= INT_HI, z3.Implies(ok, to_z3(f) == to_z3(v))))
        ex.store(st, a[0], IntT(32), SI(32, f, INT_LO, INT_HI), M)
        return self.rc(ex, st, ok)

    def put(self, st, k, v):
        if not k.is_const():
            raise Unsupported("name not known")
        out = st.data.get('out', {})
        self.flag('each name is written once', int(k.const_value()) not in out, self.text(int(k.const_value())))
        st.data['out'] = dict(out, **{}) if False else {**out, int(k.const_value()): v}

    def c_out_type(self, ex, st, a):
        out = st.data.get('out', {})
        self.flag('the type is written once', 'type' not in out)
        st.data['out'] = {**out, 'type': self.wid(st, a[1])}

    def c_out_mpz(self, ex, st, a):
        k = self.wid(st, a[1])
        g = st.objs[a[2].obj].ghost
        if isinstance(g, Coeffs):
            i = self.co_index(ex, st, a[2], g, 'coefficient')
            self.within(ex, st, z3.And(to_z3(i) >= to_z3(g.lo), to_z3(i) < to_z3(g.hi)), 'coefficient not initialised')
            self.goal(st, 'coefficient written under its own name', to_z3(k) == self.CK(to_z3(i)))
            n = st.data['out'].get('#', P(0))
            if ex.check(st, [to_z3(n) != to_z3(i)]) != z3.unsat:
                raise Unsupported("coefficients written in another order")
            st.data['out'] = {**st.data['out'], '#': n + 1}
            return
        self.put(st, k, gmp.mget(ex, st, a[2]))

    def c_out_int(self, ex, st, a):
        self.put(st, self.wid(st, a[1]), ex.as_s(st, a[2], 32))

    # ---- runs
    def begin(self, fam):
        ex, st = self.ex, State()
        ex.loopspecs = {}
        M = modules()[FAM[fam][0]]
        self.po = M.struct_offsets('pbc_param_s')
        ao = M.struct_offsets('pbc_param_interface_s')
        self.ao = ao
        self.par = st.alloc(16, 'heap', 'par')
        self.tab = st.alloc(8, 'heap', 'table')
        if fam == 'd':
            CoeffLoop(self, 'pbc_param_init_d', 0)
            OutLoop(self, 'd_out_str', 0)
            ClearLoop(self, 'd_clear', 0)
        return st

    def method(self, st, nm):
        api = ring.getcell(st, self.par, self.po['api'])
        f = ring.getcell(st, api, self.ao[nm])
        if not isinstance(f, FnPtr):
            raise Unsupported("no method " + nm)
        return f

    def keys(self, fam):
        return [self.const(k.encode()) for k in FAM[fam][1].split()], [self.const(k.encode()) for k in FAM[fam][2].split()]

    def read(self, st, fam):
        return self.fn(st, 'pbc_param_init_' + fam, self.par, self.tab)

    def rejects(self, fam):
        """zero exactly if every field is there and a number"""
        self.given = None
        st = self.begin(fam)
        mk, ik = self.keys(fam)
        h = heap(st, [self.par, self.tab])
        good = z3.And(*([self.OK(k) for k in mk] + [self.IOK(k) for k in ik]))
        for s, r in self.read(st, fam):
            if not self.path_ok(s):
                continue
            bad = z3.Not(good)
            if fam == 'd':
                kk = self.Z(self.const(b'k'))
                d = to_z3(s.data['d'])
                i = to_z3(s.objs[self.coeffs(s).obj].ghost.hi)
                c = self.ex.cond_of(s, r)
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                self.goal(s, 'accepted only with every field and coefficient', z3.Implies(z3.Not(c), z3.And(good, d == kk / 2, d >= 1, i == d, self.prefix(d))))
                self.goal(s, 'refused only for a missing or malformed field or coefficient', z3.Implies(c, z3.Or(bad, kk < 2, z3.And(i >= 1, i <= d, z3.Not(self.OK(self.CK(i - 1)))))))
            else:
                self.truth(s, 'nonzero exactly if a field is missing or malformed', r, bad)
            self.clear_all(s, h, fam)

    def clear_all(self, s, h, fam):
        if fam == 'd':
            s.data['co'] = self.coeffs(s).obj
        d = ring.getcell(s, self.par, self.po['data'])
        f = self.method(s, 'clear')
        for s1, _ in self.ex.run_fn(s, f, [d]):
            if not self.path_ok(s1):
                continue
            if fam == 'd':
                g = s1.objs[s.data['co']].ghost
                l, self.leak = self.leak, False
                self.ieq(s1, 'every coefficient cleared', g.lo, g.hi)
                self.leak = l
                ring.setcell(s1, self.par, self.po['data'], 0)
            self.no_leak(s1, h, None, 'clearing parameters of type ' + fam)

    def trip(self, fam):
        """text of any parameters names every field; reading it gives them back"""
        self.given = None
        ex = self.ex
        st = self.begin(fam)
        mk, ik = self.keys(fam)
        M = modules()[FAM[fam][0]]
        for k in mk:
            ex.assume(st, self.OK(k))
        for k in ik:
            ex.assume(st, self.IOK(k))
        if fam == 'd':
            k = self.Z(self.const(b'k'))
            ex.assume(st, z3.And(k >= 2, k < 1 << 30))
            j = z3.Int('j!q')
            ex.assume(st, z3.ForAll([j], self.OK(self.CK(j))))
        for s, r in self.read(st, fam):
            if not self.path_ok(s):
                continue
            d = ring.getcell(s, self.par, self.po['data'])
            o = s.wobj(d.obj)
            # any values at all in the fields
            mp0 = dict(o.mpz)
            ints = {off: c for off, c in o.cells.items() if c[0] == 4 and isinstance(c[1], SI)}
            for off in mp0:
                o.mpz[off] = Poly.fresh('field')
            for off in ints:
                if fam == 'd' and off == M.struct_offsets('d_param_s')['k']:
                    continue
                v = Poly.fresh('ifield')
                ex.assume(s, z3.And(to_z3(v) >= INT_LO, to_z3(v) <= INT_HI))
                o.cells[off] = (4, SI(32, v, INT_LO, INT_HI))
            want_m = dict(o.mpz)
            want_i = {off: o.cells[off][1] for off in ints}
            if fam == 'd':
                c0 = s.objs[self.coeffs(s).obj].ghost
            s.data['out'] = {}
            fs = st0 = None
            stream = s.alloc(8, 'heap', 'stream')
            for s1, _ in ex.run_fn(s, self.method(s, 'out_str'), [stream, d]):
                if not self.path_ok(s1):
                    continue
                out = dict(s1.data['out'])
                ty = out.pop('type', None)
                self.flag('type is written', ty is not None and ty == P(self.const(fam.encode())))
                n = out.pop('#', None)
                got = set(out)
                self.flag('exactly the fields are written', got == set(mk) | set(ik), 'missing %s, unexpected %s' % ([self.text(x) for x in set(mk) | set(ik) if x not in got], [self.text(x) for x in got if x not in mk and x not in ik]))
                if fam == 'd':
                    self.goal(s1, 'every coefficient is written', to_z3(n if n is not None else P(0)) == to_z3(ex.as_s(s1, want_i[M.struct_offsets('d_param_s')['k']], 32)) / 2)
                self.given = dict(out)
                if fam == 'd':
                    self.given['#'] = c0.arr
                par2 = s1.alloc(16, 'heap', 'par2')
                keep, self.par = self.par, par2
                try:
                    for s2, r2 in self.read(s1, fam):
                        if not self.path_ok(s2):
                            continue
                        self.truth(s2, 'text written is accepted', r2, False)
                        e = s2.objs[ring.getcell(s2, par2, self.po['data']).obj]
                        self.flag('the same integers exist', set(e.mpz) == set(want_m))
                        for off in want_m:
                            if off in e.mpz:
                                self.ieq(s2, 'integer read back is that written', e.mpz[off], want_m[off])
                        for off in want_i:
                            c = e.cells.get(off)
                            self.ieq(s2, 'number read back is that written', ex.as_s(s2, c[1], 32) if c and c[1] is not UNDEF else P(1 << 40), ex.as_s(s2, want_i[off], 32))
                        if fam == 'd':
                            g = s2.objs[self.coeffs(s2).obj].ghost
                            j = self.J
                            self.goal(s2, 'coefficients read back are those written', z3.And(to_z3(g.hi) == to_z3(c0.hi), z3.Implies(z3.And(j >= 0, j < to_z3(c0.hi)), z3.Select(g.arr, j) == z3.Select(c0.arr, j))))
                finally:
                    self.par, self.given = keep, None

    def body(self):
        for fam in FAM:
            self.case('type %s from any table' % fam, self.rejects, fam)
            if not self.leak:
                self.case('type %s written and read back' % fam, self.trip, fam)


class DispatchUnit(Strings):
    """type to family; table made, read, used and released; lines written"""
    name = 'choice of the family, life of the table and lines of the text'

    def __init__(self, **k):
        super().__init__(**k)
        C = self.ex.contracts
        for f in FAM:
            C['pbc_param_init_' + f] = self.initf(f)
        self.H = z3.Function('has', z3.IntSort(), z3.BoolSort())
        self.V = z3.Function('val', z3.IntSort(), z3.IntSort())
        C['symtab_has'] = lambda ex, st, a: ex.bool_si(st, self.H(to_z3(self.wid(st, a[1]))), 32)
        C['symtab_at'] = self.c_at
        C['fprintf'] = self.c_fprintf
        C['fputs'] = self.c_fputs
        C['fputc'] = C['putc'] = C['_IO_putc'] = self.c_fputc
        C['__gmpz_out_str'] = self.c_out
        self.assumptions.add("symbol tables behave as finite maps (C18)")

    def c_at(self, ex, st, a):
        k = to_z3(self.wid(st, a[1]))
        n = st.fork()
        ex.assume(st, self.H(k))
        ex.assume(n, z3.Not(self.H(k)))
        out = []
        if ex.check(st, []) != z3.unsat:
            v = Poly.fresh('v')
            ex.assume(st, to_z3(v) == self.V(k))
            p = st.alloc(None, 'global', 'entry')
            st.wobj(p.obj).ghost = Word(v)
            out.append((st, p))
        if ex.check(n, []) != z3.unsat:
            out.append((n, 0))
        return out

    def initf(self, f):
        def go(ex, st, a):
            M = modules()['ecc/param.c']
            po, ao = M.struct_offsets('pbc_param_s'), M.struct_offsets('pbc_param_interface_s')
            if a[0].obj != self.par.obj or a[1].obj != self.tab.obj:
                raise Unsupported("family read from elsewhere")
            st.data['fam'] = st.data.get('fam', ()) + (f,)
            d = st.alloc(8, 'heap', 'parameters')
            api = st.alloc(24, 'global', 'interface')
            for k in ao.values():
                ring.setcell(st, api, k, FnPtr('clear_of_the_family'))
            ring.setcell(st, self.par, po['api'], api)
            ring.setcell(st, self.par, po['data'], d)

            def clear(ex, st, a):
                if st.objs[a[0].obj].freed:
                    raise MemError("parameters cleared twice")
                st.wobj(a[0].obj).freed = True
            ex.contracts['clear_of_the_family'] = clear
            r = Poly.fresh('res')
            ex.assume(st, z3.And(to_z3(r) >= 0, to_z3(r) < 1 << 20))
            st.data['res'], st.data['d'] = r, d
            return SI(32, r, 0, 1 << 20)
        return go

    def types(self):
        ex, st = self.ex, State()
        self.par, self.tab = st.alloc(16, 'heap', 'par'), st.alloc(8, 'heap', 'table')
        ty = self.const(b'type')
        fams = {f: self.const(f.encode()) for f in FAM}
        h = heap(st, [self.par, self.tab])
        seen = set()
        for s, r in self.fn(st, 'param_set_tab', self.par, self.tab, mod='ecc/param.c'):
            if not self.path_ok(s):
                continue
            f = s.data.get('fam', ())
            v = self.V(ty)
            if not f:
                seen.add(None)
                self.truth(s, 'refused without a known type', r, True)
                self.goal(s, 'no family only if the type is missing or unknown', z3.Not(z3.And(self.H(ty), oneof(v, tuple(fams.values())))))
                self.no_leak(s, h, None, 'refused parameters')
                continue
            self.flag('one family is read', len(f) == 1)
            seen.add(f[0])
            self.goal(s, 'family is that named by the type', z3.And(self.H(ty), v == fams[f[0]]))
            res = to_z3(s.data['res'])
            self.truth(s, 'result is that of the family', r, res != 0)
            d = s.data['d']
            gone = s.objs[d.obj].freed
            if ex.check(s, [res == 0]) != z3.unsat:
                self.goal(s, 'accepted parameters are kept', z3.BoolVal(not gone) if not gone else res != 0)
            self.leakgoal(s, 'refused parameters are released', z3.BoolVal(True) if gone else res == 0)
        self.flag('every type is known', seen == set(FAM) | {None}, str(seen))

    def leakgoal(self, s, n, g):
        l, self.leak = self.leak, False
        self.goal(s, n, g)
        self.leak = l

    def pairing(self, fn):
        """a pairing is made exactly from accepted parameters, which are then released"""
        ex, st = self.ex, State()
        C = ex.contracts
        keep = {k: C.get(k) for k in ('pbc_param_init_set_str', 'pbc_param_init_set_buf', 'pairing_init_pbc_param', 'strlen', 'clear_of_the_family')}
        M = modules()['ecc/param.c']
        po, ao = M.struct_offsets('pbc_param_s'), M.struct_offsets('pbc_param_interface_s')
        pg = st.alloc(None, 'heap', 'pairing')
        buf = st.alloc(None, 'heap', 'text')
        st.wobj(buf.obj).ghost = Word(Poly.var('text'))
        L, N = Poly.var('len'), Poly.var('strlen')
        ex.assume(st, z3.And(to_z3(L) >= 0, to_z3(L) < 1 << 40, to_z3(N) >= 0, to_z3(N) < 1 << 40))

        def read(ex, s, a):
            if 'res' in s.data:
                raise Unsupported("text read twice")
            self.flag('the text given is read', isinstance(a[1], Ptr) and a[1].obj == buf.obj and a[1].off == 0)
            if len(a) > 2:
                l = P(a[2]) if isinstance(a[2], int) else ex.as_u(s, a[2], 64)
                if fn.endswith('buf'):
                    self.ieq(s, 'the length given is used', l, L)
                else:
                    self.goal(s, 'text runs up to its zero byte', z3.Or(to_z3(l) == 0, to_z3(l) == to_z3(N)))
            elif fn.endswith('buf'):
                self.goal(s, 'the length given is used', to_z3(L) == 0)
            r = Poly.fresh('res')
            ex.assume(s, z3.And(to_z3(r) >= 0, to_z3(r) < 1 << 20))
            s.data['res'] = r
            f = s.fork()
            ex.assume(s, to_z3(r) == 0)
            ex.assume(f, to_z3(r) != 0)
            d = s.alloc(8, 'heap', 'parameters')
            api = s.alloc(24, 'global', 'interface')
            for k in ao.values():
                ring.setcell(s, api, k, FnPtr('clear_of_the_family'))
            ring.setcell(s, a[0], a[0].off + po['api'], api)
            ring.setcell(s, a[0], a[0].off + po['data'], d)
            s.data['d'] = d
            return [(s, SI(32, r, 0, 0)), (f, SI(32, r, 1, 1 << 20))]

        def clear(ex, s, a):
            if not isinstance(a[0], Ptr) or s.objs[a[0].obj].freed or a[0].obj != s.data['d'].obj:
                raise MemError("clearing parameters that are not there")
            s.wobj(a[0].obj).freed = True

        def make(ex, s, a):
            d = ring.getcell(s, a[1], a[1].off + po['data'])
            ok = a[0].obj == pg.obj and isinstance(d, Ptr) and 'd' in s.data and d.obj == s.data['d'].obj and not s.objs[d.obj].freed
            self.flag('pairing is made from the parameters read', ok)
            s.data['made'] = s.data.get('made', 0) + 1
        C.update(pbc_param_init_set_str=read, pbc_param_init_set_buf=read, pairing_init_pbc_param=make, clear_of_the_family=clear, strlen=lambda ex, s, a: SI(64, N, 0, 1 << 40))
        try:
            h = heap(st, [pg, buf])
            for s, r in self.fn(st, fn, pg, buf, *([SI(64, L, 0, 1 << 40)] if fn.endswith('buf') else [])):
                if not self.path_ok(s):
                    continue
                res = s.data.get('res')
                if res is None:
                    self.flag('parameters are read', False)
                    continue
                self.truth(s, 'nonzero exactly if the text is refused', r, to_z3(res) != 0)
                self.goal(s, 'a pairing exactly for accepted text', (to_z3(res) == 0) == z3.BoolVal(s.data.get('made', 0) == 1))
                self.no_leak(s, h, None, fn)
        finally:
            for k, v in keep.items():
                if v is None:
                    C.pop(k, None)
                else:
                    C[k] = v

    # ---- life of the table
    def life(self, fn):
        ex, st = self.ex, State()
        C = ex.contracts
        keep = {k: C.get(k) for k in ('symtab_init', 'read_symtab', 'param_set_tab', 'symtab_forall_data', 'symtab_clear', 'strlen')}
        self.par = st.alloc(16, 'heap', 'par')
        self.buf = st.alloc(None, 'heap', 'text')
        st.wobj(self.buf.obj).ghost = Word(Poly.var('text'))
        L, N = Poly.var('len'), Poly.var('strlen')
        ex.assume(st, z3.And(to_z3(L) >= 0, to_z3(L) < 1 << 40, to_z3(N) >= 0, to_z3(N) < 1 << 40))

        def state(s, p):
            if not isinstance(p, Ptr) or p.off != 0:
                raise Unsupported("table inside another object")
            return s.data.get(('tab', p.obj))

        def step(s, p, frm, to, what):
            x = state(s, p)
            if x not in frm:
                raise MemError(what + (" of a table %s" % (x or 'not initialised')))
            s.data['tab', p.obj] = to

        def t_init(ex, s, a):
            step(s, a[0], (None, 'cleared'), 'empty', 'initialisation')
            s.data['tabs'] = s.data.get('tabs', ()) + (a[0].obj,)

        def t_read(ex, s, a):
            step(s, a[0], ('empty',), 'filled', 'reading')
            self.flag('the text given is read', isinstance(a[1], Ptr) and a[1].obj == self.buf.obj and a[1].off == 0)
            lim = a[2] if isinstance(a[2], int) else None
            l = P(lim) if lim is not None else ex.as_u(s, a[2], 64)
            if fn.endswith('buf'):
                self.ieq(s, 'the length given is used', l, L)
            else:
                self.goal(s, 'text runs up to its zero byte', z3.Or(to_z3(l) == 0, to_z3(l) == to_z3(N)))

        def t_set(ex, s, a):
            if state(s, a[1]) != 'filled':
                self.flag('table is read before it is used', False)
            if a[0].obj != self.par.obj:
                raise Unsupported("other parameters")
            r = Poly.fresh('res')
            ex.assume(s, z3.And(to_z3(r) >= 0, to_z3(r) < 1 << 20))
            s.data['res'] = r
            return SI(32, r, 0, 1 << 20)

        def t_forall(ex, s, a):
            f = a[1]
            if not isinstance(f, FnPtr) or f.name not in ('pbc_free_contract', 'default_pbc_free', 'free'):
                raise Unsupported("callback")
            step(s, a[0], ('filled', 'empty'), 'entries released', 'release')

        def t_clear(ex, s, a):
            x = state(s, a[0])
            self.leakgoal(s, 'entries are released before the table', z3.BoolVal(x != 'filled'))
            step(s, a[0], ('filled', 'empty', 'entries released'), 'cleared', 'clearing')

        def t_len(ex, s, a):
            return SI(64, N, 0, 1 << 40)
        C.update(symtab_init=t_init, read_symtab=t_read, param_set_tab=t_set, symtab_forall_data=t_forall, symtab_clear=t_clear, strlen=t_len)
        try:
            h = heap(st, [self.par, self.buf])
            args = [self.par, self.buf] + ([SI(64, L, 0, 1 << 40)] if fn.endswith('buf') else [])
            for s, r in self.fn(st, fn, *args):
                if not self.path_ok(s):
                    continue
                if 'res' not in s.data:
                    self.flag('parameters are read', False)
                    continue
                self.truth(s, 'result is that of reading the table', r, to_z3(s.data['res']) != 0)
                for t in s.data.get('tabs', ()):
                    self.leakgoal(s, 'the table is cleared', z3.BoolVal(s.data['tab', t] == 'cleared'))
                self.no_leak(s, h, None, fn)
        finally:
            for k, v in keep.items():
                if v is None:
                    C.pop(k, None)
                else:
                    C[k] = v

    # ---- lines
    def emit(self, st, *pieces):
        st.data['line'] = st.data.get('line', ()) + pieces

    def c_fprintf(self, ex, st, a):
        f = cstr(st, a[1])
        args = list(a[2:])
        i, lit = 0, b''
        while i < len(f):
            if f[i:i + 1] != b'%':
                lit += f[i:i + 1]
                i += 1
                continue
            self.emit(st, lit)
            lit = b''
            c = f[i + 1:i + 2]
            if c == b's':
                self.emit(st, ('w', self.wid(st, args.pop(0))))
            elif c == b'd':
                self.emit(st, ('n', ex.as_s(st, args.pop(0), 32)))
            elif c == b'c':
                self.emit(st, bytes([int(args.pop(0)) & 255]))
            elif c == b'%':
                lit = b'%'
            else:
                raise Unsupported("conversion %r" % c)
            i += 2
        self.emit(st, lit)
        return SI(32, Poly.fresh('n'), 0, 1 << 20)

    def c_fputs(self, ex, st, a):
        o = st.objs[a[0].obj]
        self.emit(st, ('w', self.wid(st, a[0])) if isinstance(o.ghost, Word) else cstr(st, a[0]))
        return 0

    def c_fputc(self, ex, st, a):
        self.emit(st, bytes([int(a[0]) & 255]))
        return 0

    def c_out(self, ex, st, a):
        if a[1] not in (0, 10):
            raise Unsupported("integers written in another base")
        self.emit(st, ('n', gmp.mget(ex, st, a[2])))
        return SI(64, Poly.fresh('n'), 0, 1 << 40)

    def line(self, fn):
        ex, st = self.ex, State()
        stream = st.alloc(8, 'heap', 'stream')
        key = self.word(st, Poly.var('key'), 'key')
        v = Poly.var('v')
        args, want = [stream, key], [('w', Poly.var('key'))]
        if fn == 'param_out_mpz':
            args.append(self.mpz(st, v))
        elif fn == 'param_out_int':
            ex.assume(st, z3.And(to_z3(v) >= INT_LO, to_z3(v) <= INT_HI))
            args.append(SI(32, v, INT_LO, INT_HI))
        if fn != 'param_out_type':
            want.append(('n', v))
        else:
            want.insert(0, b'type')
        h = heap(st, [x for x in args if isinstance(x, Ptr)])
        for s, _ in self.fn(st, fn, *args):
            if not self.path_ok(s):
                continue
            toks, cur, ok = [], None, True
            for p in s.data.get('line', ()):
                if isinstance(p, tuple):
                    ok &= cur is None
                    cur = p
                    continue
                for ch in p:
                    if ch in b' \t\r\n':
                        if cur is not None:
                            toks.append(cur)
                        cur = None
                    elif isinstance(cur, tuple):
                        ok = False
                    else:
                        cur = (cur or b'') + bytes([ch])
            self.flag('white space follows every word', ok and cur is None)
            same = len(toks) == len(want) and all((x == y if isinstance(y, bytes) else isinstance(x, tuple) and x[0] == y[0]) for x, y in zip(toks, want))
            self.flag('a name and its value are written', same, repr(toks))
            if same:
                for x, y in zip(toks, want):
                    if isinstance(y, tuple):
                        self.ieq(s, 'what is written is what was given', x[1], y[1])
            self.no_leak(s, h, None, fn)

    def body(self):
        self.case('family chosen by the type', self.types)
        for fn in ('pbc_param_init_set_str', 'pbc_param_init_set_buf'):
            self.case(fn, self.life, fn)
        for fn in ('pairing_init_set_str', 'pairing_init_set_buf'):
            self.case(fn, self.pairing, fn)
        for fn in ('param_out_type', 'param_out_mpz', 'param_out_int'):
            self.case(fn, self.line, fn)
