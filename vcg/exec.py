"""Symbolic executor / verification-condition generator over LLVM IR.

Functions with a contract (CONTRACTS, or an abstract field's slot contract) are
replaced by the contract at the call; every other callee with a body is
executed, so helpers extracted by a refactoring need no annotation.
"""
import time
import z3
from .poly import Poly, P, fresh_name, sym_name
from .ir import (Unsupported, IntT, PtrT, VoidT, FloatT, ArrT, StructT, NamedT)


class MemError(Exception):
    """A definite memory-safety / definedness failure on a feasible path."""


class Bound(Exception):
    """Resource bound hit: result is undecided."""


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off if isinstance(self.off, int) else 0))

    def __repr__(self):
        return "&o%d+%s" % (self.obj, self.off)


class FnPtr:
    def __init__(self, name, mod=None, slot=None, desc=None):
        self.name = name
        self.mod = mod
        self.slot = slot
        self.desc = desc

    def __eq__(self, o):
        return isinstance(o, FnPtr) and self.name == o.name and self.mod is o.mod and self.slot == o.slot and self.desc is o.desc

    def __hash__(self):
        return hash((self.name, self.slot))

    def __repr__(self):
        return "fn:%s" % self.name


class SI:
    """symbolic machine integer; p is congruent to it mod 2^w and lo<=p<=hi"""
    __slots__ = ("w", "p", "lo", "hi", "cond")

    def __init__(self, w, p, lo, hi, cond=None):
        self.w = w
        self.p = p
        self.lo = lo
        self.hi = hi
        self.cond = cond

    def __repr__(self):
        return "SI%d(%r)" % (self.w, self.p)


class SBV:
    __slots__ = ("w", "e")

    def __init__(self, w, e):
        self.w = w
        self.e = e

    def __repr__(self):
        return "SBV%d(%s)" % (self.w, self.e)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class FVal:
    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("id", "size", "cells", "kind", "freed", "name", "owner", "fill", "mpz", "ghost", "segs", "desc", "readonly", "lazy")

    def __init__(self, id, size, kind, name, owner):
        self.id = id
        self.size = size
        self.cells = {}
        self.kind = kind
        self.freed = False
        self.name = name
        self.owner = owner
        self.fill = None
        self.mpz = None      # off -> Poly
        self.ghost = None    # abstract element value
        self.segs = None     # limb segments
        self.desc = None     # abstract field descriptor
        self.readonly = False
        self.lazy = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.kind, self.name, owner)
        o.cells = dict(self.cells)
        o.freed = self.freed
        o.fill = self.fill
        o.mpz = dict(self.mpz) if self.mpz is not None else None
        o.ghost = self.ghost
        o.segs = list(self.segs) if self.segs is not None else None
        o.desc = self.desc
        o.readonly = self.readonly
        o.lazy = self.lazy
        return o


class Frame:
    __slots__ = ("fn", "blk", "idx", "env", "prev", "retreg", "allocas", "loops")

    def __init__(self, fn, retreg):
        self.fn = fn
        self.blk = fn.order[0]
        self.idx = 0
        self.env = {}
        self.prev = None
        self.retreg = retreg
        self.allocas = []
        self.loops = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.env = dict(self.env)
        f.prev = self.prev
        f.retreg = self.retreg
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f


_sid = [0]


class State:
    def __init__(self):
        _sid[0] += 1
        self.sid = _sid[0]
        self.objs = {}
        self.next = 1
        self.frames = []
        self.pc = []          # z3 bools
        self.zeros = []       # ring polys known zero
        self.nonzeros = []    # ring polys known nonzero
        self.atoms = {}       # z3 bool name -> (kind, poly)
        self.subst = []       # (var, Poly) eliminations for ring domain
        self.globs = {}
        self.steps = 0
        self.trace = []
        self.data = {}        # scratch for contracts (uninterpreted function tables)
        self.ret = None

    def fork(self):
        s = State.__new__(State)
        _sid[0] += 1
        s.sid = _sid[0]
        # both become non-owners of shared objects
        _sid[0] += 1
        self.sid = _sid[0]
        s.objs = dict(self.objs)
        s.next = self.next
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.zeros = list(self.zeros)
        s.nonzeros = list(self.nonzeros)
        s.atoms = dict(self.atoms)
        s.subst = list(self.subst)
        s.globs = dict(self.globs)
        s.steps = self.steps
        s.trace = list(self.trace)
        s.data = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.data.items()}
        s.ret = None
        return s

    # ---- memory
    def alloc(self, size, kind, name=""):
        i = self.next
        self.next += 1
        self.objs[i] = Obj(i, size, kind, name, self.sid)
        return Ptr(i, 0)

    def obj(self, i):
        return self.objs[i]

    def wobj(self, i):
        o = self.objs[i]
        if o.owner != self.sid:
            o = o.clone(self.sid)
            self.objs[i] = o
        return o


def z3int(name):
    return z3.Int(name)


_monocache = {}


def mono_z3(m, nonlinear=False):
    if nonlinear:
        r = None
        for v, e in m:
            for _ in range(e):
                x = z3.Int(sym_name(v))
                r = x if r is None else r * x
        return r
    c = _monocache.get(m)
    if c is None:
        if len(m) == 1 and m[0][1] == 1:
            c = z3.Int(sym_name(m[0][0]))
        else:
            c = z3.Int("M:" + "*".join("%s^%d" % (sym_name(v), e) for v, e in m))
        _monocache[m] = c
    return c


def to_z3(p, nonlinear=False):
    """integer-valued Poly with integer coefficients -> z3 Int term"""
    p = P(p)
    r = None
    for m, c in p.t.items():
        if m == ():
            t = z3.IntVal(int(c))
        else:
            t = mono_z3(m, nonlinear)
            if c != 1:
                t = int(c) * t
        r = t if r is None else r + t
    return r if r is not None else z3.IntVal(0)


def addbv(a, b):
    if isinstance(a, SBV) or isinstance(b, SBV):
        if isinstance(a, Poly) or isinstance(b, Poly):
            raise Unsupported("mixed offset")
        A = a.e if isinstance(a, SBV) else z3.BitVecVal(a, 64)
        B = b.e if isinstance(b, SBV) else z3.BitVecVal(b, 64)
        e = z3.simplify(A + B)
        return e.as_signed_long() if z3.is_bv_value(e) else SBV(64, e)
    return a + b


class Executor:
    def __init__(self, modules, contracts, max_steps=400000, max_paths=4000, deadline=None):
        self.mods = modules           # name -> Module
        self.contracts = contracts
        self.loopspecs = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.obls = []
        self.solver_time = 0.0
        self.nqueries = 0
        self.nunk = 0                 # queries the solver gave up on
        self.deadline = deadline
        self.called = set()
        self.used_contracts = set()
        self.extern = {}
        for m in modules.values():
            for f in m.funcs.values():
                if not f.internal:
                    self.extern[f.name] = f
        self.z3timeout = 20000
        self.slot_contract = None
        self.bounded_loops = set()
        self.max_unroll = None
        self.in_scope = None
        self.deaths = []
        self.loop_junk = {}
        self.merge = False            # join the states of a branch at its post-dominator

    # ---- z3
    def check(self, st, extra=(), full=False, timeout=None):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.z3timeout)
        for c in st.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        if r == z3.unknown:
            self.nunk += 1
        if full:
            return r, (s.model() if r == z3.sat else None)
        return r

    def feasible(self, st, extra=()):
        return self.check(st, extra) != z3.unsat

    def assume(self, st, c):
        if c is True or z3.is_true(c):
            return
        st.pc.append(c)

    # ---- value coercions
    def as_u(self, st, v, w):
        """Poly in [0,2^w)"""
        if isinstance(v, int):
            return P(v % (1 << w))
        if isinstance(v, SI):
            if v.lo >= 0 and v.hi < (1 << w):
                return v.p
            return self.norm(st, v.p, v.lo, v.hi, w, False)[0]
        if isinstance(v, SBV):
            raise Unsupported("bv->int")
        raise Unsupported("as_u %r" % (v,))

    def as_s(self, st, v, w):
        if isinstance(v, int):
            v %= (1 << w)
            return P(v - (1 << w) if v >> (w - 1) else v)
        if isinstance(v, SI):
            if v.lo >= -(1 << (w - 1)) and v.hi < (1 << (w - 1)):
                return v.p
            return self.norm(st, v.p, v.lo, v.hi, w, True)[0]
        raise Unsupported("as_s %r" % (v,))

    def norm(self, st, p, lo, hi, w, signed):
        m = 1 << w
        a, b = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        # try to prove in range
        z = to_z3(p)
        if self.check(st, [z3.Or(z < a, z > b)]) == z3.unsat:
            return p, a, b
        key = ('norm', p.key(), w, signed)
        q = st.data.setdefault('norms', {}).get(key)
        if q is None:
            q = Poly.fresh("wrap")
            r = p - q * m
            zr = to_z3(r)
            self.assume(st, z3.And(zr >= a, zr <= b))
            st.data['norms'][key] = q
        return p - q * m, a, b

    def cond_of(self, st, v, w=1):
        """z3 bool or python bool that v != 0"""
        if isinstance(v, int):
            return v != 0
        if isinstance(v, SI):
            if v.cond is not None:
                return v.cond
            return z3.Not(to_z3(self.as_u(st, v, v.w)) == 0)
        if isinstance(v, (Ptr, FnPtr)):
            return True
        if isinstance(v, SBV):
            return v.e != 0
        if z3.is_bool(v):
            return v
        raise Unsupported("cond_of %r" % (v,))

    # ---- memory access
    def deref(self, st, ptr, n, what):
        if isinstance(ptr, int):
            raise MemError("%s through %s pointer" % (what, "null" if ptr == 0 else "integer"))
        if ptr is UNDEF:
            raise MemError("%s through uninitialised pointer" % what)
        if not isinstance(ptr, Ptr):
            raise Unsupported("%s through %r" % (what, ptr))
        o = st.objs[ptr.obj]
        if o.freed:
            raise MemError("%s of freed object %s" % (what, o.name))
        if isinstance(ptr.off, int) and isinstance(o.size, int) and n is not None and isinstance(n, int):
            if ptr.off < 0 or ptr.off + n > o.size:
                raise MemError("%s out of bounds of %s (offset %d, %d bytes, size %d)" % (what, o.name, ptr.off, n, o.size))
        return o

    def load(self, st, ptr, ty, mod):
        n = mod.sizeof(ty)
        o = self.deref(st, ptr, n, "load")
        off = ptr.off
        if hasattr(o.ghost, 'w_load'):
            return o.ghost.w_load(self, st, o, off, ty, n)
        if o.segs is not None:
            from . import limbs
            if isinstance(ty, IntT) and ty.w == 64:
                return limbs.load_limb(self, st, ptr)
        if isinstance(off, SBV):
            return self.sbv_load(st, o, off, ty, n, mod)
        if not isinstance(off, int):
            raise Unsupported("symbolic offset load")
        if o.desc is not None:
            r = o.desc.load_slot(self, st, o, off, ty)
            if r is not None:
                return r
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if type(v).__name__ == 'Junk':
                raise Unsupported("value carried round a loop is not described by its invariant: " + str(o.name))
            if isinstance(ty, PtrT) and isinstance(v, SI):
                return v
            return v
        if o.mpz is not None:
            from . import gmp
            r = gmp.load_mpz_part(self, st, o, off, n)
            if r is not None:
                return r
        if c is not None:
            if isinstance(c[1], int) and n < c[0]:
                return c[1] & ((1 << (8 * n)) - 1)
        # assemble / extract concrete bytes
        if o.ghost is not None:
            raise Unsupported("representation of abstract element inspected")
        for b, (sz, v) in o.cells.items():
            if b < off and b + sz >= off + n:
                if isinstance(v, int):
                    return (v >> (8 * (off - b))) & ((1 << (8 * n)) - 1)
                raise Unsupported("partial load of symbolic cell")
        if n > 1 and all((off + k) in o.cells and o.cells[off + k][0] == 1 and isinstance(o.cells[off + k][1], int) for k in range(n)):
            return sum(o.cells[off + k][1] << (8 * k) for k in range(n))
        if o.lazy is not None:
            v = o.lazy(self, st, o, off, ty, n)
            if v is not None:
                st.wobj(o.id).cells[off] = (n, v)
                return v
        if o.fill is not None:
            if not any(b < off + n and b + sz > off for b, (sz, v) in o.cells.items()):
                return 0
        return UNDEF

    def sbv_offs(self, st, o, off, n):
        if not isinstance(o.size, int) or o.size > 512 * n:
            raise Unsupported("symbolic offset into a large object")
        ks = list(range(0, o.size - n + 1, n))
        if self.check(st, [z3.And(*[off.e != k for k in ks])]) != z3.unsat:
            if self.check(st, [z3.Not(z3.And(off.e >= 0, off.e <= o.size - n))]) == z3.sat:
                raise MemError("access out of bounds of %s (symbolic offset)" % o.name)
            raise Unsupported("unaligned symbolic offset")
        return [k for k in ks if self.check(st, [off.e == k]) != z3.unsat]

    def sbv_load(self, st, o, off, ty, n, mod):
        r = None
        for k in self.sbv_offs(st, o, off, n):
            v = self.load(st, Ptr(o.id, k), ty, mod)
            if v is UNDEF:
                return UNDEF
            r = v if r is None else self.merge_val(off.e == k, v, r, 8 * n)
            if r is None:
                raise Unsupported("conditional load")
        if r is None:
            raise Unsupported("no feasible offset")
        return r

    def store(self, st, ptr, ty, v, mod):
        n = mod.sizeof(ty)
        o = self.deref(st, ptr, n, "store")
        if o.readonly:
            raise MemError("store to read-only object %s" % o.name)
        o = st.wobj(ptr.obj)
        off = ptr.off
        if hasattr(o.ghost, 'w_load'):
            o.ghost.w_store(self, st, o, off, ty, n, v)
            return
        if o.segs is not None and isinstance(ty, IntT) and ty.w == 64:
            from . import limbs
            limbs.store_limb(self, st, ptr, v)
            return
        if isinstance(off, SBV):
            for k in self.sbv_offs(st, o, off, n):
                old = self.load(st, Ptr(o.id, k), ty, mod)
                nv = self.merge_val(off.e == k, v, old, 8 * n)
                if nv is None:
                    raise Unsupported("conditional store of %r over %r" % (v, old))
                self.store(st, Ptr(o.id, k), ty, nv, mod)
            return
        if not isinstance(off, int):
            raise Unsupported("symbolic offset store")
        if o.mpz is not None:
            from . import gmp
            if gmp.store_mpz_part(self, st, o, off, n, v):
                return
        for b in [b for b, (sz, _) in o.cells.items() if b != off and b < off + n and b + sz > off]:
            sz, ov = o.cells[b]
            if isinstance(ov, int):
                # split into bytes
                del o.cells[b]
                for k in range(sz):
                    if not (off <= b + k < off + n):
                        o.cells[b + k] = (1, (ov >> (8 * k)) & 255)
            else:
                del o.cells[b]
        c = o.cells.get(off)
        if c is not None and c[0] > n:
            if isinstance(c[1], int):
                for k in range(n, c[0]):
                    o.cells[off + k] = (1, (c[1] >> (8 * k)) & 255)
        o.cells[off] = (n, v)

    def gep(self, st, mod, bt, base, idx):
        off = 0
        t = bt
        for k, (ity, iv) in enumerate(idx):
            if k == 0:
                s = mod.sizeof(t)
                off = self.addoff(st, off, iv, s, ity)
            else:
                t = mod.resolve(t)
                if isinstance(t, StructT):
                    o, f = mod.field_off(t, iv)
                    off = addbv(off, o)
                    t = f
                elif isinstance(t, ArrT):
                    s = mod.sizeof(t.e)
                    off = self.addoff(st, off, iv, s, ity)
                    t = t.e
                else:
                    raise Unsupported("gep into %r" % t)
        if isinstance(base, int):
            if isinstance(off, int):
                return base + off
            raise Unsupported("gep on integer")
        if base is UNDEF:
            raise MemError("address computed from uninitialised pointer")
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        no = addbv(base.off, off)
        if isinstance(no, Poly) and no.is_const():
            no = int(no.const_value())
        return Ptr(base.obj, no)

    def addoff(self, st, off, iv, s, ity):
        if isinstance(iv, int):
            w = ity.w
            iv %= (1 << w)
            if iv >> (w - 1):
                iv -= 1 << w
            return off + iv * s
        if isinstance(iv, SI):
            p = self.as_s(st, iv, ity.w)
            if isinstance(off, SBV):
                raise Unsupported("mixed index")
            return P(off) + p * s
        if iv is UNDEF:
            raise MemError("index is uninitialised")
        if isinstance(iv, SBV):
            e = iv.e if iv.w == 64 else z3.SignExt(64 - iv.w, iv.e)
            return addbv(off, SBV(64, z3.simplify(e * z3.BitVecVal(s, 64))))
        raise Unsupported("index %r" % (iv,))

    # ---- operands
    def val(self, st, fr, ty, op):
        k = op[0]
        if k == 'reg':
            return fr.env[op[1]]
        if k == 'int':
            if isinstance(ty, IntT):
                return op[1] % (1 << ty.w)
            return op[1]
        if k == 'glob':
            return self.glob(st, fr.fn.mod, op[1])
        if k == 'undef':
            return UNDEF
        if k == 'gep':
            idx = [(t, self.val(st, fr, t, v)) for t, v in op[2][1:]]
            return self.gep(st, fr.fn.mod, op[1], self.val(st, fr, PtrT(), op[2][0][1]), idx)
        if k == 'cast':
            v = self.val(st, fr, op[2], op[3])
            return self.cast(st, op[1], op[2], v, op[4], fr.fn.mod)
        if k == 'float':
            return FVal(op[1])
        if k == 'zero':
            return 0
        raise Unsupported("operand %r" % (op,))

    def find_func(self, mod, name):
        f = mod.funcs.get(name) if mod is not None else None
        if f is None:
            f = self.extern.get(name)
        return f

    def glob(self, st, mod, name):
        if name in self.contracts and not (mod is not None and name in mod.globals):
            return FnPtr(name, mod)
        f = self.find_func(mod, name)
        if f is not None:
            return FnPtr(name, f.mod if f.internal else None)
        if name in mod.decls:
            return FnPtr(name, None)
        if name in mod.globals:
            ty, init, ext = mod.globals[name]
            m = mod
            if ext:
                for mm in self.mods.values():
                    g = mm.globals.get(name)
                    if g is not None and not g[2]:
                        m = mm
                        ty, init, ext = g
                        break
                key = (None, name)
            else:
                key = (mod.path, name) if (name.startswith('.str') or '.' in name) else (mod.path, name)
                # non-internal globals are shared
                shared = any(mm is not mod and name in mm.globals and mm.globals[name] is not None and mm.globals[name][2] for mm in self.mods.values())
                if shared:
                    key = (None, name)
            if key in st.globs:
                return Ptr(st.globs[key], 0)
            hook = self.contracts.get('@' + name)
            p = st.alloc(m.sizeof(ty), 'global', '@' + name)
            st.globs[key] = p.obj
            if hook is not None:
                hook(self, st, p)
                return p
            if init is not None:
                self.init_mem(st, m, p, ty, init)
            else:
                if ext:
                    raise Unsupported("external global " + name)
            return p
        raise Unsupported("global " + name)

    def init_mem(self, st, mod, p, ty, init):
        o = st.wobj(p.obj)
        k = init[0]
        if k == 'zero':
            o.fill = 0
            return
        if k == 'bytes':
            for i, b in enumerate(init[1]):
                o.cells[p.off + i] = (1, b)
            return
        if k == 'agg':
            t = mod.resolve(ty)
            off = p.off
            if isinstance(t, ArrT):
                s = mod.sizeof(t.e)
                for i, (et, v) in enumerate(init[1]):
                    self.init_mem(st, mod, Ptr(p.obj, p.off + i * s), et, v)
            else:
                for i, (et, v) in enumerate(init[1]):
                    fo, _ = mod.field_off(t, i)
                    self.init_mem(st, mod, Ptr(p.obj, p.off + fo), et, v)
            return
        if k == 'undef':
            return
        fr = Frame.__new__(Frame)

        class FF:
            pass
        fr.fn = FF()
        fr.fn.mod = mod
        v = self.val(st, fr, ty, init)
        n = mod.sizeof(ty)
        o = st.wobj(p.obj)
        o.cells[p.off] = (n, v)

    # ---- casts and arithmetic
    def cast(self, st, op, sty, v, dty, mod):
        if v is UNDEF:
            return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(v, int):
                return v
            return v
        if op == 'zext':
            if isinstance(v, int):
                return v % (1 << sty.w)
            if z3.is_bool(v):
                if self.merge:
                    return SBV(dty.w, z3.If(v, z3.BitVecVal(1, dty.w), z3.BitVecVal(0, dty.w)))
                return self.bool_si(st, v, dty.w)
            if isinstance(v, SI):
                p = self.as_u(st, v, sty.w)
                lo, hi = max(0, v.lo), v.hi if v.lo >= 0 and v.hi < (1 << sty.w) else (1 << sty.w) - 1
                return SI(dty.w, p, lo, hi, v.cond)
            if isinstance(v, SBV):
                return SBV(dty.w, z3.ZeroExt(dty.w - v.w, v.e))
        if op == 'sext':
            if isinstance(v, int):
                v %= 1 << sty.w
                if v >> (sty.w - 1):
                    v -= 1 << sty.w
                return v % (1 << dty.w)
            if isinstance(v, SI):
                p = self.as_s(st, v, sty.w)
                h = 1 << (sty.w - 1)
                lo, hi = (v.lo, v.hi) if v.lo >= -h and v.hi < h else (-h, h - 1)
                return SI(dty.w, p, lo, hi, v.cond)
            if isinstance(v, SBV):
                return SBV(dty.w, z3.SignExt(dty.w - v.w, v.e))
        if op == 'trunc':
            if isinstance(v, int):
                return v % (1 << dty.w)
            if isinstance(v, SI):
                w = dty.w
                m = 1 << w
                if (v.lo >= 0 and v.hi < m) or (v.lo >= -(m >> 1) and v.hi < (m >> 1)):
                    return SI(w, v.p, v.lo, v.hi, v.cond)
                p, lo, hi = self.norm(st, v.p, v.lo, v.hi, w, v.lo < 0)
                return SI(w, p, lo, hi)
            if isinstance(v, SBV):
                return SBV(dty.w, z3.Extract(dty.w - 1, 0, v.e))
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported("pointer truncation")
        raise Unsupported("cast %s of %r" % (op, v))

    def bool_si(self, st, c, w):
        if c is True:
            return 1
        if c is False:
            return 0
        key = ('b', c.get_id())
        t = st.data.setdefault('bools', {})
        if key in t:
            p = t[key][0]
        else:
            p = Poly.fresh("b")
            z = to_z3(p)
            self.assume(st, z3.And(z >= 0, z <= 1, (z == 1) == c))
            t[key] = (p, c)
        return SI(w, p, 0, 1, c)

    def binop(self, st, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(ty, FloatT):
            raise Unsupported("floating point")
        w = ty.w
        M = 1 << w
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = a.off - b.off
                if isinstance(d, int):
                    return d % M
                return SI(w, P(d), -(1 << 62), 1 << 62)
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + (b - M if b >> (w - 1) else b))
            if op == 'and' and isinstance(b, int):
                # pointer alignment tests: objects are 16-byte aligned
                if isinstance(a.off, int) and b < 16:
                    return a.off & b
            raise Unsupported("pointer arithmetic %s" % op)
        if isinstance(a, int) and isinstance(b, int):
            a %= M
            b %= M
            sa = a - M if a >> (w - 1) else a
            sb = b - M if b >> (w - 1) else b
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    raise MemError("shift amount %d >= width %d" % (b, w))
                if op == 'shl': return (a << b) % M
                if op == 'lshr': return a >> b
                return (sa >> b) % M
            if b == 0:
                raise MemError("division by zero")
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv': return int(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) % M
            if op == 'srem': return (abs(sa) % abs(sb) * (1 if sa >= 0 else -1)) % M
        if isinstance(a, SBV) or isinstance(b, SBV):
            return self.bvop(op, w, a, b)
        if z3.is_bool(a) or z3.is_bool(b):
            A = self.cond_of(st, a)
            B = self.cond_of(st, b)
            A = z3.BoolVal(A) if isinstance(A, bool) else A
            B = z3.BoolVal(B) if isinstance(B, bool) else B
            if op == 'xor': return z3.simplify(z3.Xor(A, B))
            if op == 'and': return z3.simplify(z3.And(A, B))
            if op == 'or': return z3.simplify(z3.Or(A, B))
            raise Unsupported("bool op " + op)

        def rng(x):
            return (x.lo, x.hi) if isinstance(x, SI) else ((x, x) if not x >> (w - 1) else (x - M, x - M))
        pa = a.p if isinstance(a, SI) else P(rng(a)[0])
        pb = b.p if isinstance(b, SI) else P(rng(b)[0])
        la, ha = rng(a)
        lb, hb = rng(b)
        if op in ('add', 'sub', 'mul'):
            if op == 'add':
                r, lo, hi = pa + pb, la + lb, ha + hb
            elif op == 'sub':
                r, lo, hi = pa - pb, la - hb, ha - lb
            else:
                c = [la * lb, la * hb, ha * lb, ha * hb]
                r, lo, hi = pa * pb, min(c), max(c)
            if r.is_const():
                return int(r.const_value()) % M
            return SI(w, r, lo, hi)
        if op == 'shl' and isinstance(b, int):
            if b >= w:
                raise MemError("shift amount %d >= width %d" % (b, w))
            return SI(w, pa * (1 << b), la << b, ha << b)
        if op in ('lshr', 'udiv', 'and', 'urem', 'ashr', 'sdiv', 'srem') and isinstance(b, int):
            signed = op in ('ashr', 'sdiv', 'srem')
            p = self.as_s(st, a, w) if signed else self.as_u(st, a, w)
            if signed:
                if self.check(st, [to_z3(p) < 0]) != z3.unsat:
                    if op == 'sdiv' and 1 < b < (1 << (w - 1)):
                        # rounds towards zero
                        q = Poly.fresh('tq')
                        zp, zq = to_z3(p), to_z3(q)
                        self.assume(st, z3.If(zp >= 0, z3.And(zq * b <= zp, zp < zq * b + b), z3.And(zq * b >= zp, zp > zq * b - b)))
                        return SI(w, q, -(1 << (w - 1)), (1 << (w - 1)) - 1)
                    raise Unsupported("signed %s of possibly negative value" % op)
            if op in ('lshr', 'ashr'):
                d = 1 << b
            elif op == 'and':
                if b and b & (b - 1) == 0:
                    # one bit
                    for v, bits in st.data.get('classes', ()):
                        if v == p and b.bit_length() - 1 in bits:
                            return SI(w, bits[b.bit_length() - 1] * b, 0, b)
                    q = self.divmod(st, p, P(b))[0]
                    r = self.divmod(st, q, P(2))[1] * b
                    return SI(w, r, 0, b) if not r.is_const() else int(r.const_value())
                if b & (b + 1):
                    raise Unsupported("and with mask %x" % b)
                d = b + 1
            else:
                d = b
            if d == 0:
                raise MemError("division by zero")
            q, r = self.divmod(st, p, P(d))
            if op in ('lshr', 'ashr', 'udiv', 'sdiv'):
                return SI(w, q, 0, (M - 1) // d) if not q.is_const() else int(q.const_value())
            return SI(w, r, 0, d - 1) if not r.is_const() else int(r.const_value())
        if op == 'xor' and isinstance(b, int) and b == M - 1:
            return SI(w, P(-1) - pa, -1 - ha, -1 - la)
        if op == 'xor' and isinstance(b, int) and b == 1 and la >= 0 and ha <= 1:
            return SI(w, P(1) - pa, 0, 1, None)
        if op in ('or', 'and', 'xor') and w in (8, 32) and la >= 0 and ha <= 1 and lb >= 0 and hb <= 1:
            A = self.cond_of(st, a)
            B = self.cond_of(st, b)
            A = z3.BoolVal(A) if isinstance(A, bool) else A
            B = z3.BoolVal(B) if isinstance(B, bool) else B
            c = {'or': z3.Or, 'and': z3.And, 'xor': z3.Xor}[op](A, B)
            return self.bool_si(st, c, w)
        if isinstance(a, int) and op in ('and', 'or', 'xor') and not isinstance(b, int):
            return self.binop(st, op, ty, b, a)
        if op == 'and' and (la >= 0 and ha <= 1 or lb >= 0 and hb <= 1):
            # only the low bit of the other operand matters
            if not (la >= 0 and ha <= 1):
                a, b, pa, pb = b, a, pb, pa
            odd = Poly({m: c % 2 for m, c in pb.t.items() if c % 2})
            r = self.divmod(st, odd, P(2))[1]
            low = int(r.const_value()) if r.is_const() else SI(w, r, 0, 1)
            if isinstance(low, int):
                return a if low else 0
            A = self.cond_of(st, a)
            A = z3.BoolVal(A) if isinstance(A, bool) else A
            return self.bool_si(st, z3.And(A, to_z3(r) != 0), w)
        if op in ('or', 'xor') and isinstance(b, int) and b == 0:
            return a
        if op == 'or' and la >= 0 and lb >= 0:
            # disjoint bits: one operand is a multiple of a power of two above the other
            for x, y, hx in ((pa, pb, ha), (pb, pa, hb)):
                k = max(hx, 0).bit_length()
                if all(isinstance(c, int) and c % (1 << k) == 0 for c in y.t.values()) and max(ha, hb) < M:
                    return SI(w, x + y, 0, min(ha + hb, M - 1))
        if op == 'or' and isinstance(b, int) and b == 1 << (w - 1):
            # setting the top bit of a value known to have it clear
            p = self.as_u(st, a, w)
            if self.check(st, [to_z3(p) >= b]) == z3.unsat:
                return SI(w, p + b, b, M - 1)
        if op == 'shl' and isinstance(a, int) and isinstance(b, SI):
            k = self.as_u(st, b, w)
            zk = to_z3(k)
            top = next((j for j in (8, 16, 32) if self.check(st, [z3.Or(zk < 0, zk >= j)]) == z3.unsat), None)
            if top is not None and a << top < M >> 1:
                v = Poly.fresh('shl')
                self.assume(st, z3.Or(*[z3.And(zk == j, to_z3(v) == a << j) for j in range(top)]))
                return SI(w, v, a, a << (top - 1))
        if op in ('urem', 'srem') and isinstance(b, SI):
            x = self.as_s(st, a, w) if op == 'srem' else self.as_u(st, a, w)
            y = self.as_s(st, b, w) if op == 'srem' else self.as_u(st, b, w)
            if self.check(st, [z3.Or(to_z3(y) <= 0, to_z3(x) < 0)]) == z3.unsat:
                r = Poly.fresh('rem')
                self.assume(st, z3.And(to_z3(r) >= 0, to_z3(r) < to_z3(y), to_z3(r) <= to_z3(x), z3.Implies(to_z3(x) < to_z3(y), to_z3(r) == to_z3(x))))
                return SI(w, r, 0, (M >> 1) - 1)
        raise Unsupported("binop %s %r %r" % (op, a, b))

    def bvop(self, op, w, a, b):
        def bv(x):
            if isinstance(x, SBV): return x.e
            if isinstance(x, int): return z3.BitVecVal(x, w)
            raise Unsupported("bv operand")
        A, B = bv(a), bv(b)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B)}.get(op)
        if r is None:
            raise Unsupported("bvop " + op)
        e = z3.simplify(r())
        if z3.is_bv_value(e):
            return e.as_long()
        return SBV(w, e)

    def divmod(self, st, p, d):
        """floor division with remainder in [0,d), d>0; memoised."""
        p = P(p)
        d = P(d)
        if p.is_const() and d.is_const():
            q, r = divmod(int(p.const_value()), int(d.const_value()))
            return P(q), P(r)
        if d.is_const():
            # exact part by part
            k = int(d.const_value())
            if all(isinstance(c, int) and (c % k == 0 or not m) for m, c in p.t.items()):
                c0 = int(p.t.get((), 0))
                a = Poly({m: c // k for m, c in p.t.items() if m})
                q, r = divmod(c0, k)
                return a + P(q), P(r)
        t = st.data.setdefault('divs', {})
        key = (p.key(), d.key())
        if key in t:
            return t[key]
        zp = to_z3(p)
        zd = to_z3(d)
        # already reduced?
        if self.check(st, [z3.Or(zp < 0, zp >= zd)]) == z3.unsat:
            t[key] = (P(0), p)
            return t[key]
        q = Poly.fresh("q")
        r = p - q * d
        zr = to_z3(r)
        self.assume(st, z3.And(zr >= 0, zr < zd))
        # helpful sign facts
        self.assume(st, z3.Implies(zp >= 0, to_z3(q) >= 0))
        self.assume(st, z3.Implies(zp < 0, to_z3(q) < 0))
        self.assume(st, z3.Implies(zp < zd, to_z3(q) <= 0))
        t[key] = (q, r)
        return q, r

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise MemError("branch depends on uninitialised value")
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = a.off - b.off
                if isinstance(d, int):
                    return int({'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred])
                z = to_z3(P(d))
                return {'eq': z == 0, 'ne': z != 0, 'ult': z < 0, 'ule': z <= 0, 'ugt': z > 0, 'uge': z >= 0}[pred]
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(not (a == b))
            raise Unsupported("pointer comparison")
        w = ty.w if isinstance(ty, IntT) else 64
        if isinstance(a, int) and isinstance(b, int):
            M = 1 << w
            a %= M
            b %= M
            if pred[0] == 's':
                a = a - M if a >> (w - 1) else a
                b = b - M if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        if isinstance(a, SBV) or isinstance(b, SBV):
            A = a.e if isinstance(a, SBV) else z3.BitVecVal(a, w)
            B = b.e if isinstance(b, SBV) else z3.BitVecVal(b, w)
            return {'eq': lambda: A == B, 'ne': lambda: A != B, 'slt': lambda: A < B, 'sle': lambda: A <= B,
                    'sgt': lambda: A > B, 'sge': lambda: A >= B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                    'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[pred]()
        if z3.is_bool(a) or z3.is_bool(b):
            A = self.cond_of(st, a)
            B = self.cond_of(st, b)
            A = z3.BoolVal(A) if isinstance(A, bool) else A
            B = z3.BoolVal(B) if isinstance(B, bool) else B
            if pred == 'eq': return z3.simplify(A == B)
            if pred == 'ne': return z3.simplify(z3.Xor(A, B))
            raise Unsupported("bool icmp")
        if isinstance(b, int) and b == 0 and isinstance(a, SI) and a.cond is not None and pred in ('eq', 'ne'):
            return z3.Not(a.cond) if pred == 'eq' else a.cond
        sg = pred[0] == 's'
        if pred in ('eq', 'ne'):
            sg = (isinstance(a, SI) and a.lo < 0) or (isinstance(b, SI) and b.lo < 0)
        A = to_z3(self.as_s(st, a, w) if sg else self.as_u(st, a, w))
        B = to_z3(self.as_s(st, b, w) if sg else self.as_u(st, b, w))
        k = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[k]()

    # ---- branching
    def branch(self, st, c):
        """returns list of (state, bool)"""
        if isinstance(c, int):
            return [(st, bool(c))]
        if isinstance(c, bool):
            return [(st, c)]
        if c is UNDEF:
            raise MemError("branch depends on uninitialised value")
        if isinstance(c, (SI, SBV)):
            c = self.cond_of(st, c)
            if isinstance(c, bool):
                return [(st, c)]
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        rt = self.check(st, [c])
        rf = self.check(st, [z3.Not(c)])
        out = []
        if rt != z3.unsat and rf != z3.unsat:
            s2 = st.fork()
            st.pc.append(c)
            s2.pc.append(z3.Not(c))
            for s, b in ((st, True), (s2, False)):
                if self.learn(s, c):
                    out.append((s, b))
            return out
        if rt != z3.unsat:
            st.pc.append(c)
            return [(st, True)] if self.learn(st, c) else []
        if rf != z3.unsat:
            st.pc.append(z3.Not(c))
            return [(st, False)] if self.learn(st, c) else []
        return []

    def learn(self, st, c):
        """propagate decided ring-atoms into the algebraic store; False if contradictory"""
        if not st.atoms:
            return True
        for name in list(st.atoms):
            kind, poly, decided = st.atoms[name]
            if decided is not None:
                continue
            v = z3.Bool(name)
            if self.check(st, [z3.Not(v)]) == z3.unsat:
                val = True
            elif self.check(st, [v]) == z3.unsat:
                val = False
            else:
                continue
            st.atoms[name] = (kind, poly, val)
            from . import ring
            if not ring.learn_atom(self, st, kind, poly, val):
                return False
        return True

    # ---- main loop
    def call(self, st, fn, args, retreg=None):
        """push a frame for fn (ir.Function)"""
        fn.mod.ensure(fn)
        self.called.add((fn.mod.src or fn.mod.path, fn.name))
        fr = Frame(fn, retreg)
        if len(args) < len(fn.params):
            raise Unsupported("too few arguments for " + fn.name)
        for (ty, nm), a in zip(fn.params, args):
            fr.env[nm] = a
        st.frames.append(fr)

    def run_fn(self, st, fn, args):
        """Execute fnptr/function to completion; yields list of (state, ret)."""
        depth = len(st.frames)
        if isinstance(fn, FnPtr):
            r = self.dispatch(st, fn, args, None, None)
            if r is not None:
                return [(s, v) for s, v in r]
            f = self.find_func(fn.mod, fn.name)
        else:
            f = fn
        self.call(st, f, args)
        return self.run(st, depth)

    def run(self, st, depth):
        work = [st]
        done = []
        npaths = 0
        while work:
            s = work.pop()
            while True:
                try:
                    r = self.step(s, depth)
                except MemError as e:
                    loc = self.where(s)
                    self.obls.append(dict(kind='memory', status='refuted', name='memory-safety', detail="%s at %s" % (e, loc), state=s))
                    break
                if r == 'done':
                    done.append((s, s.ret))
                    break
                if r == 'dead':
                    break
                if r is None:
                    continue
                # list of successor states
                npaths += len(r)
                if npaths > self.max_paths:
                    raise Bound("path limit")
                if not r:
                    break
                work.extend(r[1:])
                s = r[0]
        return done

    def where(self, s):
        if not s.frames:
            return "?"
        out = []
        for f in reversed(s.frames[-3:]):
            ins = f.fn.blocks[f.blk]
            i = ins[min(f.idx, len(ins) - 1)]
            l = f.fn.mod.src_line(i.dbg)
            out.append("%s:%s (%s)" % (f.fn.mod.src or f.fn.mod.path, l, f.fn.name))
        return " <- ".join(out)

    def goto(self, st, fr, blk):
        """returns None or list of states / 'dead' for loop handling"""
        fr.prev = fr.blk
        fr.blk = blk
        fr.idx = 0
        sp = self.loopspecs.get(fr.fn.name)
        if sp:
            loops = fr.fn.loops()
            if blk in loops:
                spec = None
                for s in sp:
                    if s.match(fr.fn, blk, list(loops).index(blk)):
                        spec = s
                        break
                if spec is not None:
                    back = fr.prev in loops[blk]
                    return spec.at_header(self, st, fr, blk, back)
        return None

    def step(self, st, depth):
        st.steps += 1
        if st.steps > self.max_steps:
            raise Bound("step limit")
        if self.deadline and (st.steps & 255) == 0 and time.time() > self.deadline:
            raise Bound("time limit")
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.idx]
        op = ins.op
        a = ins.a
        mod = fr.fn.mod
        if op == 'alloca':
            n = 1
            size = mod.sizeof(a[0])
            if a[1] is not None:
                nv = self.val(st, fr, IntT(64), a[1])
                if isinstance(nv, int):
                    size *= nv
                else:
                    size = None
            p = st.alloc(size, 'stack', fr.fn.name + ':' + (ins.res or ''))
            fr.allocas.append(p.obj)
            fr.env[ins.res] = p
        elif op == 'load':
            fr.env[ins.res] = self.load(st, self.val(st, fr, PtrT(), a[1]), a[0], mod)
        elif op == 'store':
            self.store(st, self.val(st, fr, PtrT(), a[2]), a[0], self.val(st, fr, a[0], a[1]), mod)
        elif op == 'gep':
            bt, ops = a
            base = self.val(st, fr, PtrT(), ops[0][1])
            idx = [(t, self.val(st, fr, t, v)) for t, v in ops[1:]]
            fr.env[ins.res] = self.gep(st, mod, bt, base, idx)
        elif op == 'bin':
            fr.env[ins.res] = self.binop(st, a[0], a[1], self.val(st, fr, a[1], a[2]), self.val(st, fr, a[1], a[3]))
        elif op == 'icmp':
            r = self.icmp(st, a[0], a[1], self.val(st, fr, a[1], a[2]), self.val(st, fr, a[1], a[3]))
            fr.env[ins.res] = r
        elif op == 'cast':
            fr.env[ins.res] = self.cast(st, a[0], a[1], self.val(st, fr, a[1], a[2]), a[3], mod)
        elif op == 'copy':
            fr.env[ins.res] = self.val(st, fr, None, a[0])
        elif op == 'br':
            return self.goto(st, fr, a[0])
        elif op == 'condbr':
            c = self.val(st, fr, IntT(1), a[0])
            outs = []
            if self.merge and not isinstance(c, (int, bool)):
                m = self.merged_branch(st, fr, a, c)
                if m is not None:
                    return m
            for s, b in self.branch(st, c):
                f = s.frames[-1]
                r = self.goto(s, f, a[1] if b else a[2])
                if r == 'dead':
                    continue
                outs.extend(r if isinstance(r, list) else [s])
            if len(outs) == 1 and outs[0] is st:
                return None
            return outs
        elif op == 'switch':
            ty, v, d, cases = a
            v = self.val(st, fr, ty, v)
            if isinstance(v, int):
                for cv, lb in cases:
                    if cv % (1 << ty.w) == v % (1 << ty.w):
                        return self.goto(st, fr, lb)
                return self.goto(st, fr, d)
            outs = []
            cur = [st]
            for cv, lb in cases:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(s, self.icmp(s, 'eq', ty, v, cv % (1 << ty.w))):
                        if b:
                            r = self.goto(s2, s2.frames[-1], lb)
                            if r != 'dead':
                                outs.extend(r if isinstance(r, list) else [s2])
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                r = self.goto(s, s.frames[-1], d)
                if r != 'dead':
                    outs.extend(r if isinstance(r, list) else [s])
            return outs
        elif op == 'phi':
            for v, b in a[1]:
                if b == fr.prev:
                    fr.env[ins.res] = self.val(st, fr, a[0], v)
                    break
            else:
                raise Unsupported("phi")
        elif op == 'select':
            c = self.val(st, fr, IntT(1), a[0])
            x = self.val(st, fr, a[1], a[2])
            y = self.val(st, fr, a[1], a[3])
            if isinstance(c, int):
                fr.env[ins.res] = x if c else y
            elif self.merge and z3.is_bool(c) and self.merge_val(c, x, y, a[1].w if isinstance(a[1], IntT) else None) is not None:
                fr.env[ins.res] = self.merge_val(c, x, y, a[1].w if isinstance(a[1], IntT) else None)
            else:
                outs = []
                for s, b in self.branch(st, c):
                    f = s.frames[-1]
                    f.env[ins.res] = x if b else y
                    f.idx += 1
                    outs.append(s)
                return outs
        elif op == 'ret':
            v = self.val(st, fr, a[0], a[1]) if a[0] is not None else None
            for o in fr.allocas:
                w = st.wobj(o)
                w.freed = True
            st.frames.pop()
            if len(st.frames) == depth:
                st.ret = v
                return 'done'
            f = st.frames[-1]
            if fr.retreg is not None:
                f.env[fr.retreg] = v
            f.idx += 1
            return None
        elif op == 'unreachable':
            return 'dead'
        elif op == 'call':
            return self.do_call(st, fr, ins)
        elif op == 'unsupported':
            raise Unsupported(ins.a[0] + ": " + ins.line)
        else:
            raise Unsupported(op)
        fr.idx += 1
        return None

    # ---- state merging
    def merged_branch(self, st, fr, a, c):
        join = fr.fn.ipdom(fr.blk)
        if join is None or join in fr.fn.loops():
            return None
        depth = len(st.frames)
        src = fr.blk
        npc = len(st.pc)
        br = self.branch(st, c)
        if len(br) < 2:
            outs = []
            for s, b in br:
                r = self.goto(s, s.frames[-1], a[1] if b else a[2])
                if r != 'dead':
                    outs.extend(r if isinstance(r, list) else [s])
            return outs
        arrived = []
        for s, b in br:
            r = self.goto(s, s.frames[-1], a[1] if b else a[2])
            work = [] if r == 'dead' else (r if isinstance(r, list) else [s])
            while work:
                x = work.pop()
                while True:
                    f = x.frames[-1]
                    if len(x.frames) == depth and f.blk == join and f.idx == 0:
                        self.do_phis(x, f)
                        arrived.append(x)
                        break
                    try:
                        r = self.step(x, -1)
                    except MemError as e:
                        self.obls.append(dict(kind='memory', status='refuted', name='memory-safety', detail="%s at %s" % (e, self.where(x)), state=x))
                        break
                    if r == 'dead':
                        break
                    if r is None:
                        continue
                    if not r:
                        break
                    work.extend(r[1:])
                    x = r[0]
        out = []
        for x in arrived:
            for i, y in enumerate(out):
                m = self.merge_states(y, x, npc)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(x)
        return out

    def do_phis(self, x, f):
        new = {}
        ins = f.fn.blocks[f.blk]
        while ins[f.idx].op == 'phi':
            i = ins[f.idx]
            for v, b in i.a[1]:
                if b == f.prev:
                    new[i.res] = self.val(x, f, i.a[0], v)
                    break
            else:
                raise Unsupported("phi")
            f.idx += 1
        f.env.update(new)

    def merge_val(self, c, u, v, w):
        if u is v:
            return u
        if isinstance(u, (int, SBV)) and isinstance(v, (int, SBV)) and not isinstance(u, bool):
            if isinstance(u, int) and isinstance(v, int) and u == v:
                return u
            if w is None:
                w = u.w if isinstance(u, SBV) else v.w if isinstance(v, SBV) else None
            if w is None:
                return None
            A = u.e if isinstance(u, SBV) else z3.BitVecVal(u, w)
            B = v.e if isinstance(v, SBV) else z3.BitVecVal(v, w)
            if w == 1:
                return None
            return SBV(w, z3.simplify(z3.If(c, A, B)))
        def bo(t):
            return t if z3.is_bool(t) else z3.BoolVal(bool(t)) if isinstance(t, int) and t in (0, 1) else None
        if z3.is_bool(u) or z3.is_bool(v):
            A, B = bo(u), bo(v)
            if A is not None and B is not None:
                return z3.simplify(z3.If(c, A, B))
            return None
        if isinstance(u, (Ptr, FnPtr)) and u == v:
            return u
        if isinstance(u, Ptr) and isinstance(v, Ptr) and u.obj == v.obj and isinstance(u.off, (int, SBV)) and isinstance(v.off, (int, SBV)):
            return Ptr(u.obj, self.merge_val(c, u.off, v.off, 64))
        return None

    def merge_states(self, p, q, npc):
        """one state standing for p or q, or None when they differ in more than bit vectors"""
        if len(p.frames) != len(q.frames) or p.zeros != q.zeros or p.nonzeros != q.nonzeros or p.subst != q.subst or p.globs != q.globs:
            return None
        if p.data.keys() != q.data.keys() or any(p.data[k] != q.data[k] for k in p.data):
            return None
        fp, fq = p.frames[-1], q.frames[-1]
        if fp.blk != fq.blk or fp.idx != fq.idx or fp.allocas != fq.allocas:
            return None
        c = z3.And(*p.pc[npc:]) if len(p.pc) > npc else z3.BoolVal(True)
        cq = z3.And(*q.pc[npc:]) if len(q.pc) > npc else z3.BoolVal(True)
        newobjs = {}
        for i in set(p.objs) | set(q.objs):
            a, b = p.objs.get(i), q.objs.get(i)
            if a is b:
                newobjs[i] = a
                continue
            if a is None or b is None:
                if (a or b).freed or (a or b).kind == 'stack':
                    continue
                return None
            if a.freed and b.freed:
                newobjs[i] = a
                continue
            if (a.size, a.kind, a.freed, a.fill, a.mpz, a.segs, a.ghost, a.desc, a.readonly) != (b.size, b.kind, b.freed, b.fill, b.mpz, b.segs, b.ghost, b.desc, b.readonly):
                return None
            o = None
            for off in set(a.cells) | set(b.cells):
                x, y = a.cells.get(off), b.cells.get(off)
                if x is None or y is None:
                    n = (x or y)[0]
                    if a.fill is None or any(k < off + n and k + sz > off for k, (sz, _) in (a if x is None else b).cells.items()):
                        if x is None and y is not None and y[1] is UNDEF:
                            continue
                        # defined on one side only: keep it undefined
                        if not any(k < off + n and k + sz > off for k, (sz, _) in (a if x is None else b).cells.items()):
                            o = o or a.clone(p.sid)
                            o.cells.pop(off, None)
                            continue
                        return None
                    x, y = x or (n, 0), y or (n, 0)
                if x[0] != y[0]:
                    return None
                if x[1] is y[1] or (type(x[1]) is type(y[1]) and not z3.is_expr(x[1]) and x[1] == y[1]):
                    continue
                v = self.merge_val(c, x[1], y[1], 8 * x[0])
                if v is None:
                    return None
                o = o or a.clone(p.sid)
                o.cells[off] = (x[0], v)
            newobjs[i] = o if o is not None else a
        env = {}
        tys = {i.res: i.a[0] for i in fp.fn.blocks[fp.blk][:fp.idx] if i.op == 'phi'}
        for r in set(fp.env) & set(fq.env):
            u, v = fp.env[r], fq.env[r]
            if u is v:
                env[r] = u
                continue
            t = tys.get(r)
            m = self.merge_val(c, u, v, t.w if isinstance(t, IntT) else None)
            if m is None:
                if r in tys:
                    return None
                continue
            env[r] = m
        fp.env = env
        p.objs = newobjs
        p.next = max(p.next, q.next)
        p.steps = max(p.steps, q.steps)
        p.pc = p.pc[:npc]
        if not (z3.is_true(z3.simplify(z3.Or(c, cq)))):
            p.pc.append(z3.Or(c, cq))
        return p

    def do_call(self, st, fr, ins):
        ty, callee, args = ins.a
        cv = self.val(st, fr, PtrT(), callee)
        argv = [self.val(st, fr, t, v) for t, v in args]
        if cv is UNDEF:
            raise MemError("call through uninitialised function pointer")
        if isinstance(cv, int):
            raise MemError("call through null function pointer")
        if not isinstance(cv, FnPtr):
            raise Unsupported("call through %r" % (cv,))
        r = self.dispatch(st, cv, argv, ins, fr)
        if r is not None:
            outs = []
            for s, v in r:
                f = s.frames[-1]
                if isinstance(v, str) and v == 'die':
                    self.deaths.append((s, self.where(s)))
                    continue
                if ins.res is not None:
                    f.env[ins.res] = v
                f.idx += 1
                outs.append(s)
            if len(outs) == 1 and outs[0] is st:
                return None
            return outs
        f = self.find_func(cv.mod, cv.name)
        if len(st.frames) > 60:
            raise Bound("call depth")
        self.call(st, f, argv, ins.res)
        return None

    def dispatch(self, st, cv, argv, ins, fr):
        """contract application: list of (state, ret), or None to inline the body"""
        if cv.slot is not None:
            self.used_contracts.add('slot:' + cv.slot)
            r = cv.desc.call_slot(self, st, cv.slot, argv)
        else:
            c = self.contracts.get(cv.name)
            if c is None:
                if self.find_func(cv.mod, cv.name) is None:
                    raise Unsupported("no contract and no body for " + cv.name)
                return None
            self.used_contracts.add(cv.name)
            r = c(self, st, argv)
            if r is NotImplemented:
                if self.find_func(cv.mod, cv.name) is None:
                    raise Unsupported("contract not applicable for " + cv.name)
                return None
        if isinstance(r, list):
            return r
        return [(st, r)]

    # ---- obligations
    def oblige(self, st, name, kind, status, detail=""):
        self.obls.append(dict(kind=kind, status=status, name=name, detail=detail, state=st))

    def prove(self, st, name, cond, detail=""):
        """integer obligation"""
        if isinstance(cond, bool):
            self.oblige(st, name, 'int', 'proved' if cond else 'refuted', detail)
            return cond
        r, m = self.check(st, [z3.Not(cond)], full=True)
        if r == z3.unsat:
            self.oblige(st, name, 'int', 'proved', detail)
            return True
        self.oblige(st, name, 'int', 'refuted' if r == z3.sat else 'unknown', detail + (" model: %s" % str(m)[:1500] if m is not None else ""))
        return False
