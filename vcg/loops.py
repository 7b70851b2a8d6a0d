"""Loop invariants: a loop is cut at its header.  On entry the invariant is proved, then
every location the loop may write is replaced by a fresh value about which only the
invariant is assumed; each way round the loop has to prove the invariant again.

The set of written locations is never taken on trust: the state at the back edge is
compared with the state at the header and a location that changed without having been
havocked restarts the proof with that location havocked too."""
import z3
from . import ring, gmp
from .poly import Poly, P
from .exec import Ptr, SI, UNDEF, to_z3, MemError
from .ir import Unsupported, IntT, PtrT


class Restart(Exception):
    pass


class Junk:
    def __repr__(self):
        return "junk"


JUNK = Junk()


def diff(a, b):
    """locations of objects of a whose content differs in b"""
    out = []
    for i, o in a.objs.items():
        p = b.objs.get(i)
        if p is o:
            continue
        if p is None:
            out.append((i, 'gone', 0))
            continue
        if o.freed != p.freed:
            out.append((i, 'freed', 0))
            continue
        if o.freed:
            continue
        for off in set(o.cells) | set(p.cells):
            x, y = o.cells.get(off), p.cells.get(off)
            if x is None or y is None:
                if o.fill is not None and (x or y)[1] == 0:
                    continue
                out.append((i, 'cell', off))
            elif x[1] is not y[1]:
                try:
                    same = x[0] == y[0] and type(x[1]) is type(y[1]) and not z3.is_expr(x[1]) and (x[1] == y[1] or (isinstance(x[1], SI) and x[1].p == y[1].p))
                except Exception:
                    same = False
                if not same:
                    out.append((i, 'cell', off))
        m, n = o.mpz or {}, p.mpz or {}
        for off in set(m) | set(n):
            if m.get(off) is not n.get(off) and m.get(off) != n.get(off):
                out.append((i, 'mpz', off))
        if o.ghost is not p.ghost and o.ghost != p.ghost:
            out.append((i, 'ghost', 0))
        if o.segs is not p.segs and o.segs != p.segs:
            out.append((i, 'segs', 0))
    return out


class View:
    """locals of the function being verified, by name"""

    def __init__(self, ex, st, fr, unit):
        self.ex, self.st, self.fr, self.unit = ex, st, fr, unit

    def ptr(self, name):
        for k in (name, '%' + name):
            if k in self.fr.env:
                return self.fr.env[k]
        raise Unsupported("no local %s in %s" % (name, self.fr.fn.name))

    def has(self, name):
        return name in self.fr.env or '%' + name in self.fr.env

    def arg(self, name):
        """pointer held in a parameter or pointer local"""
        return self.ex.load(self.st, self.ptr(name + '.addr' if self.has(name + '.addr') else name), PtrT(), self.fr.fn.mod)

    def elem(self, name):
        return ring.get(self.ex, self.st, self.ptr(name))

    def set_elem(self, name, v):
        ring.put(self.ex, self.st, self.ptr(name), v)

    def mpz(self, name):
        return gmp.mget(self.ex, self.st, self.ptr(name))

    def set_mpz(self, name, v):
        gmp.mset(self.ex, self.st, self.ptr(name), v)

    def int(self, name, w=32, signed=True):
        v = self.ex.load(self.st, self.ptr(name), IntT(w), self.fr.fn.mod)
        if v is UNDEF:
            return None
        return self.ex.as_s(self.st, v, w) if signed else self.ex.as_u(self.st, v, w)

    def set_int(self, name, p, lo, hi, w=32):
        self.ex.store(self.st, self.ptr(name), IntT(w), SI(w, p, lo, hi), self.fr.fn.mod)
        z = to_z3(p)
        self.ex.assume(self.st, z3.And(z >= lo, z <= hi))

    def assume(self, c):
        self.ex.assume(self.st, c)


class LoopInv:
    """subclasses or instances supply: havoc(L), assume(L), check(L, tag) and optionally
    variant(L) -> integer Poly"""
    idx = 0
    at_most = None

    def __init__(self, unit, fn, idx=0):
        self.unit, self.fn, self.idx = unit, fn, idx
        unit.ex.loopspecs.setdefault(fn, []).append(self)

    def match(self, fn, blk, i):
        return i == self.idx

    def variant(self, L):
        return None

    def assume(self, L):
        pass

    def keeps(self, L):
        """locations of objects made by havoc that the loop body may change"""
        return ()

    def at_header(self, ex, st, fr, blk, back):
        L = View(ex, st, fr, self.unit)
        key = ('inv', blk)
        if back and key in fr.loops:
            snap, v0, allowed = fr.loops[key]
            self.check(L, 'preserved')
            if v0 is not None:
                v1 = self.variant(L)
                z0, z1 = to_z3(v0), to_z3(v1)
                r = ex.check(st, [z3.Not(z3.And(z0 >= 0, z1 < z0))])
                self.unit.ob('variant decreases in ' + self.fn, 'proved' if r == z3.unsat else 'unknown', '[limit]' if r != z3.unsat else '')
            junk = ex.loop_junk.setdefault((self.fn, self.idx), set())
            new = False
            for loc in diff(snap, st):
                o = st.objs.get(loc[0])
                key2 = loc + (o.name if o else '',)
                if loc in allowed:
                    continue
                if key2 in junk:
                    raise Unsupported("loop frame unstable: %s %s" % (self.idx, key2))
                if loc[1] in ('gone', 'freed', 'segs'):
                    raise Unsupported("loop body frees an object of its caller: %s" % (o.name if o else loc[0]))
                junk.add(key2)
                new = True
            if new:
                raise Restart()
            for i, o in st.objs.items():
                if i not in snap.objs and not o.freed and o.kind == 'heap' and o.name != 'snapshot':
                    raise Unsupported("allocation in the loop body survives the iteration: " + o.name)
            return 'dead'
        self.check(L, 'entry')
        before = st.fork()
        self.havoc(L)
        self.assume(L)
        done = set(diff(before, st)) | set(self.keeps(L))
        for (i, kind, off, nm) in sorted(ex.loop_junk.get((self.fn, self.idx), ())):
            if i not in st.objs or st.objs[i].freed or st.objs[i].name != nm or (i, kind, off) in done:
                continue
            done.add((i, kind, off))
            o = st.wobj(i)
            if kind == 'cell':
                c = o.cells.get(off)
                o.cells[off] = (c[0] if c else 8, JUNK)
            elif kind == 'mpz':
                o.mpz[off] = Poly.fresh('junk')
            elif kind == 'ghost':
                o.ghost = self.fresh_ghost(o.ghost)
        allowed = set(diff(before, st)) | done
        fr.loops[key] = None
        v0 = self.variant(L)
        snap = st.fork()
        fr.loops[key] = (snap, v0, allowed)
        return None

    def fresh_ghost(self, g):
        if isinstance(g, tuple):
            return tuple(self.fresh_ghost(x) for x in g)
        if g is None:
            return None
        if hasattr(g, 'havocked'):
            return g.havocked()
        return Poly.fresh('junk')
