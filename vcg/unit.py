"""Verification units: run real code from the public API under symbolic inputs and
discharge the contract's obligations on every path."""
import random, time, traceback, os, sys
import z3
from fractions import Fraction
from . import ring, gmp, build, loops
from .poly import Poly, P, sym_name, sym_id
from .exec import Executor, State, Ptr, FnPtr, SI, SBV, UNDEF, MemError, Bound, to_z3
from .ir import Unsupported

MODS = None


def modules(out=None):
    global MODS
    if MODS is None:
        MODS = build.load(None, out)
        ring.LAY = ring.FieldLayout(MODS['api.c'])
    return MODS


# ---------------------------------------------------------------- refutation by evaluation

Q = (1 << 127) - 1


def sqrt_mod(a, q):
    a %= q
    if a == 0:
        return 0
    if pow(a, (q - 1) // 2, q) != 1:
        return None
    return pow(a, (q + 1) // 4, q)       # q = 3 mod 4


def witness(st, diff, tries=25, seed=1):
    """find field values satisfying the algebraic path constraints with diff != 0"""
    for env, ev in models(st, [diff], tries, seed):
        if ev(diff) != 0:
            return {sym_name(v): x for v, x in env.items()}
    return None


def models(st, polys, tries=25, seed=1):
    """random field values satisfying the algebraic path constraints"""
    rnd = random.Random(seed)
    q = st.data.get('char') or Q
    invs = st.data.get('inv', [])
    rules = st.data.get('rules', ())
    allp = list(polys) + list(st.zeros) + list(st.nonzeros) + [d for _, d in invs] + [t for _, _, t in rules] + [p for _, p in st.subst]
    for _ in range(tries):
        env = {}
        vs = set()
        for p in allp:
            vs |= p.vars()
        defd = {}
        for v, p in st.subst:
            defd.setdefault(v, ('s', p))
        for v, d in invs:
            defd.setdefault(v, ('i', d))
        for v, e, t in rules:
            defd.setdefault(v, ('r', (e, t)))
        # solve remaining zeros for a variable occurring linearly
        bad = False
        extra = []
        for z in st.zeros:
            for v in sorted(z.vars()):
                if v not in defd and z.degree_in(v) == 1:
                    cs = z.coeffs_in(v)
                    if v in cs[1].vars():
                        continue
                    defd[v] = ('q', (cs.get(0, Poly()), cs[1]))
                    break
            else:
                # v^2 * c + rest ?
                extra.append(z)
        def val(v, depth=0):
            if v in env:
                return env[v]
            if depth > 60:
                raise ValueError
            k = defd.get(v)
            if k is None:
                r = rnd.randrange(q) if rnd.random() < .9 else rnd.randrange(4)
            else:
                env_need(k, depth)
                kind, x = k
                if kind == 's':
                    r = ev(x)
                elif kind == 'i':
                    d = ev(x)
                    if d == 0:
                        raise ValueError
                    r = pow(d, -1, q)
                elif kind == 'q':
                    c = ev(x[1])
                    if c == 0:
                        raise ValueError
                    r = -ev(x[0]) * pow(c, -1, q) % q
                else:
                    e, t = x
                    if e != 2:
                        raise ValueError
                    r = sqrt_mod(ev(t), q)
                    if r is None:
                        raise ValueError
            env[v] = r % q
            return env[v]

        def env_need(k, depth):
            kind, x = k
            ps = [x] if kind in 'si' else ([x[0], x[1]] if kind == 'q' else [x[1]])
            for p in ps:
                for w in p.vars():
                    val(w, depth + 1)

        def ev(p):
            tot = 0
            for m, c in p.t.items():
                t = (c.numerator * pow(c.denominator, -1, q)) if isinstance(c, Fraction) else c
                for v, e in m:
                    t = t * pow(val(v), e, q) % q
                tot += t
            return tot % q
        try:
            for v in vs:
                val(v)
            if any(ev(z) for z in st.zeros) or any(ev(n) == 0 for n in st.nonzeros):
                continue
        except (ValueError, RecursionError):
            continue
        yield env, ev


def sabotage(v):
    if v is None:
        return (P(12345),)
    if isinstance(v, tuple):
        return tuple(sabotage(x) for x in v)
    return P(v) + 1


def targets(o):
    out = set()
    for n, v in o.cells.values():
        if isinstance(v, Ptr):
            out.add(v.obj)
    return out


def reach(st, roots):
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen or i not in st.objs or st.objs[i].freed:
            continue
        seen.add(i)
        todo.extend(targets(st.objs[i]))
    return seen


def heap(st, args):
    """what is allocated, and from where it is reachable"""
    live = {i for i, o in st.objs.items() if not o.freed}
    inc = set()
    for i in live:
        inc |= targets(st.objs[i]) - {i}
    roots = (live - inc) | {a.obj for a in args}
    return live, roots, reach(st, roots), {i for i, o in st.objs.items() if o.freed and o.mpz}


def leaked(st, h, ret=None):
    live, roots, was, old = h
    after = reach(st, list(roots) + ([ret.obj] if isinstance(ret, Ptr) else []) + [i for i, o in st.objs.items() if o.kind not in ('heap', 'stack') and not o.freed])
    bad = []
    for i, o in st.objs.items():
        if not o.freed and o.kind == 'heap' and (i not in live or i in was) and i not in after and o.name != 'mpzview':
            bad.append(o.name or 'object')
        if o.freed and o.mpz and i not in old:
            bad.append('integer in ' + (o.name or 'object'))
    return bad


class Unit:
    """One group of obligations.  Subclasses implement body()."""
    name = "unit"
    bounded = None          # text of the bound when the result is bounded only

    shard = (0, 1)          # run the cases with index = i mod n only
    canary = False          # sabotage every postcondition: nothing may be proved
    canary_depth = 0
    maxcases = None

    def __init__(self, deadline=240, seed=1, tier='quick', leak=False):
        self.leak = leak
        self.ex = Executor(modules(), dict(gmp.C))
        self.ex.deadline = time.time() + deadline
        self.tier = tier
        self.seed = seed
        self.results = []      # (name, status, detail)
        self.cur = ""
        self.ncase = -1
        self.assumptions = set()

    def ob(self, name, status, detail=""):
        if self.canary and status == 'proved' and self.canary_depth == 0:
            # structural obligations (definedness) are not sabotaged
            return
        self.results.append((self.cur + name, status, detail))

    def api(self, st, name, *args):
        if not self.leak or name in self.ACCESS:
            return self.ex.run_fn(st, FnPtr('v_' + name), list(args))
        h = heap(st, [a for a in args if isinstance(a, Ptr)])
        rs = self.ex.run_fn(st, FnPtr('v_' + name), list(args))
        for s, r in rs:
            self.no_leak(s, h, r, name)
        return rs

    keep = ()               # objects of the caller that the field under test points to
    ACCESS = ('item', 'x', 'y', 'item_count')

    def no_leak(self, s, h, r=None, what=''):
        """every live allocation is still reachable from what existed before the call or was returned"""
        if self.canary:
            s.alloc(8, 'heap', 'canary')
        bad = leaked(s, h, r)
        self.canary_depth += 1
        st = 'proved'
        if bad:
            st = 'refuted' if self.real(s) else 'unknown'
        self.ob('storage released after ' + what, st, '' if not bad else 'still allocated: ' + ", ".join(bad[:6]))
        self.canary_depth -= 1

    def fn(self, st, name, *args, mod=None):
        if isinstance(mod, str):
            mod = self.ex.mods.get(mod) if hasattr(self.ex, 'mods') else modules().get(mod)
        return self.ex.run_fn(st, FnPtr(name, mod), list(args))

    def one(self, r):
        if len(r) != 1:
            raise Unsupported("%d paths where one was expected" % len(r))
        return r[0]

    def lifecycle(self, op=None):
        """element and field cleared: nothing allocated on their behalf remains"""
        st, K = self.setup()[:2]
        for st0 in ([x[0] for x in st] if isinstance(st, list) else [st]):
            for s in self.used(st0.fork(), K, op):
                self.cleared(s, K)

    def used(self, st, K, op):
        p = st.alloc(ring.LAY.e_size, 'heap', 'e')
        for s, _ in self.ex.run_fn(st, FnPtr('v_init'), [p, K]):
            for s1, _ in (self.ex.run_fn(s, FnPtr('v_' + op), [p]) if op else [(s, None)]):
                for s2, _ in self.ex.run_fn(s1, FnPtr('v_clear'), [p]):
                    s2.wobj(p.obj).freed = True
                    yield s2

    def cleared(self, st, K):
        live, roots, was, old = heap(st, [])
        roots = set(roots) - {K.obj} | {i for i in live if st.objs[i].desc is not None} | {p.obj for p in self.keep}
        other = reach(st, roots)
        for s, _ in self.fn(st, 'field_clear', K):
            if self.canary:
                s.alloc(8, 'heap', 'canary')
            bad = [o.name for i, o in s.objs.items() if not o.freed and o.kind == 'heap' and i not in other and i != K.obj and o.name != 'mpzview'
                   and (i in was or i not in live)]
            bad += ['integer in ' + o.name for i, o in s.objs.items() if o.mpz and i not in old and (o.freed or i == K.obj)]
            self.canary_depth += 1
            self.ob('nothing remains after field_clear', 'proved' if not bad else 'refuted' if self.real(s) else 'unknown', ", ".join(bad[:6]))
            self.canary_depth -= 1

    # ring equality obligations
    def eq(self, st, name, got, want):
        if self.leak:
            return True
        if self.canary:
            self.canary_depth += 1
            self.canary = False
            try:
                n0 = len(self.results)
                r = self.eq(st, name, got, sabotage(want))
                return r
            finally:
                self.canary = True
                self.canary_depth -= 1
        if isinstance(got, tuple) or isinstance(want, tuple):
            if got is None or want is None or len(got) != len(want):
                self.ob(name, 'refuted', 'got %r want %r' % (got, want))
                return False
            ok = True
            for i, (g, w) in enumerate(zip(got, want)):
                ok &= self.eq(st, "%s[%d]" % (name, i), g, w)
            return ok
        if got is None or want is None:
            if got is want:
                self.ob(name, 'proved')
                return True
            self.ob(name, 'refuted', 'got %r want %r' % (got, want))
            return False
        d = P(got) - P(want)
        if ring.prove_zero(st, d):
            self.ob(name, 'proved')
            return True
        n = ring.normal(st, d)
        w = witness(st, d, seed=self.seed)
        det = "difference %s" % repr(n)[:400]
        if w is not None:
            self.ob(name, 'refuted', det + " nonzero at " + str({k: v for k, v in list(w.items())[:12]}))
        else:
            self.ob(name, 'unknown', det)
        return False

    def truth(self, st, name, c, want):
        """c: C int returned; want: bool or z3 Bool or z3-condition for c != 0"""
        if self.leak:
            return
        ex = self.ex
        try:
            cc = ex.cond_of(st, c)
        except MemError as e:
            self.ob(name, 'refuted', str(e))
            return
        cc = z3.BoolVal(cc) if isinstance(cc, bool) else cc
        if self.canary:
            want = (not want) if isinstance(want, bool) else z3.Not(want)
        want = z3.BoolVal(want) if isinstance(want, bool) else want
        r = ex.check(st, [z3.Xor(cc, want)])
        self.canary_depth += 1
        self.ob(name, 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown',
                "" if r == z3.unsat else "returned %r, contract %s, path %s" % (c, want, [str(x)[:80] for x in st.pc[-4:]]))
        self.canary_depth -= 1

    def path_ok(self, st, name="defined"):
        u = st.data.get('undefined_ops')
        if u:
            if any(ring.prove_zero(st, n, deep=False) for n in st.nonzeros):
                self.ob(name, 'proved', 'path excluded by an algebraic contradiction')
                return False
            w = witness(st, P(1), tries=40, seed=self.seed)
            self.ob(name, 'refuted' if w is not None else 'unknown', '[limit] ' + "; ".join(u) + ("" if w is None else " when " + str(dict(list(w.items())[:8]))))
            return False
        self.ob(name, 'proved')
        return True

    def flush_mem(self):
        """memory-safety / abort obligations raised by the executor"""
        for o in self.ex.obls:
            if o['status'] == 'refuted':
                # a path is only real if its condition is satisfiable
                self.ob(o['name'], 'refuted' if self.real(o['state']) else 'unknown', '[limit] ' + o['detail'])
            else:
                self.ob(o['name'], o['status'], o['detail'])
        self.ex.obls = []
        for s, w in self.ex.deaths:
            if not getattr(self, 'may_die', False):
                self.ob('no abort', 'refuted' if self.real(s) else 'unknown', '[limit] pbc_die reached at ' + w)
        self.ex.deaths = []

    def real(self, st):
        """the path condition is satisfiable and says nothing about abstracted products,
        which the solver treats as free symbols"""
        if self.ex.check(st) != z3.sat:
            return False
        return not any('M:' in str(c) for c in st.pc)

    def case(self, label, f, *a):
        """run one obligation group; engine limits make it undecided, never wrong"""
        self.ncase += 1
        if self.ncase % self.shard[1] != self.shard[0]:
            return
        if self.maxcases is not None:
            self.maxcases -= 1
            if self.maxcases < 0:
                return
        if time.time() > self.ex.deadline:
            self.results.append((label + ": time", 'unknown', 'time budget of the unit used up'))
            return
        self.cur = label + ": "
        n0 = len(self.results)
        k0 = self.ex.nunk
        try:
            for attempt in range(12):
                try:
                    f(*a)
                    break
                except loops.Restart:
                    del self.results[n0:]
                    self.ex.obls, self.ex.deaths = [], []
            else:
                raise Unsupported("loop frame not found")
            self.ex.loop_junk = {}
            self.flush_mem()
            if self.ex.nunk == k0:
                # every query was answered: an obligation left open is one the verifier rejects
                self.results[n0:] = [(n, 'failed' if s == 'unknown' and not d.startswith('[limit]') else s, d) for n, s, d in self.results[n0:]]
            if len(self.results) == n0:
                self.ob('reached', 'unknown', 'no path produced an obligation')
        except MemError as e:
            self.ob('memory-safety', 'refuted', str(e))
            self.ex.obls = []
        except (Unsupported, Bound) as e:
            self.ex.obls = []
            self.ob('supported', 'unknown', "%s: %s" % (type(e).__name__, str(e)[:300]))
        except RecursionError as e:
            self.ob('supported', 'unknown', 'recursion')
        except Exception as e:
            self.ex.obls = []
            self.ob('engine', 'unknown', traceback.format_exc()[-800:])
        self.cur = ""

    def body(self):
        raise NotImplementedError

    def run(self):
        t = time.time()
        try:
            self.body()
        except MemError as e:
            self.ob('setup', 'refuted', str(e))
        except (Unsupported, Bound) as e:
            self.ob('setup', 'unknown', str(e))
        except Exception:
            self.ob('setup', 'unknown', traceback.format_exc()[-800:])
        return dict(name=self.name + (', storage' if self.leak else ''), results=self.results, bounded=self.bounded, wall=time.time() - t,
                    solver=self.ex.solver_time, queries=self.ex.nqueries, functions=sorted("%s:%s" % x for x in self.ex.called if x[0] != 'api.c'),
                    contracts=sorted(self.ex.used_contracts), assumptions=sorted(self.assumptions),
                    bounded_loops=sorted(self.ex.bounded_loops))


ALIAS3 = [(0, 1, 2), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 0, 0)]
ALIAS2 = [(0, 1), (0, 0)]


class RingUnit(Unit):
    """A field built by the real code over an abstract base: every arithmetic API call
    returns the value demanded by the abstract algebra, for all operand values and
    aliasing patterns, and leaves its other operands unchanged."""
    ops = None

    def setup(self):
        """-> (state, field ptr, spec Desc)"""
        raise NotImplementedError

    def view_new(self, st, K, nm, val=None):
        p = st.alloc(ring.LAY.e_size, 'heap', nm)
        st, _ = self.one(self.api(st, 'init', p, K))
        v = val if val is not None else self.fresh_val(nm)
        self.write(st, p, v)
        return st, p, v

    def subptrs(self, st, e):
        raise NotImplementedError

    def write(self, st, e, v):
        for p, x in zip(self.subptrs(st, e), v):
            ring.put(self.ex, st, p, x)

    def read(self, st, e):
        return tuple(ring.get(self.ex, st, p) for p in self.subptrs(st, e))

    def inverse_pre(self, st, v):
        """assume v invertible"""
        raise NotImplementedError

    def do(self, op, alias):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        nelem = max(alias) + 1
        es, vs = [], []
        for i in range(nelem):
            st, p, v = self.view_new(st, K, "abcd"[i])
            es.append(p)
            vs.append(v)
        args = [es[i] for i in alias]
        ins = [vs[i] for i in alias[1:]]
        extra = []
        want = None
        if op == 'add': want = lambda s: S.add(*ins)
        elif op == 'sub': want = lambda s: S.sub(*ins)
        elif op == 'mul': want = lambda s: S.mul(*ins)
        elif op == 'square': want = lambda s: S.mul(ins[0], ins[0])
        elif op == 'cubic': want = lambda s: S.mul(ins[0], S.mul(ins[0], ins[0]))
        elif op == 'double': want = lambda s: S.add(ins[0], ins[0])
        elif op == 'neg': want = lambda s: S.scal(-1, ins[0])
        elif op == 'set': want = lambda s: ins[0]
        elif op == 'halve': want = lambda s: S.scal(ring.half(s), ins[0])
        elif op == 'invert':
            self.inverse_pre(st, ins[0])
        elif op == 'div':
            self.inverse_pre(st, ins[1])
        elif op == 'mul_si':
            k = Poly.var('k')
            ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
            want = lambda s: S.scal(k, ins[0])
        elif op == 'add_ui':
            k = Poly.var('k')
            ex.assume(st, z3.And(to_z3(k) >= 0, to_z3(k) < (1 << 64)))
            extra = [SI(64, k, 0, (1 << 64) - 1)]
            want = lambda s: S.add(S.scal(k, S.one()), ins[0])
        elif op == 'mul_mpz':
            k = Poly.var('k')
            z = st.alloc(16, 'heap', 'z')
            gmp.minit(ex, st, z)
            gmp.mset(ex, st, z, k)
            extra = [z]
            want = lambda s: S.scal(k, ins[0])
        else:
            raise Unsupported(op)
        for s, r in self.api(st, op, *args, *extra):
            self.path_ok(s)
            got = self.read(s, args[0])
            if op == 'invert':
                self.eq(s, 'value', S.mul(got, ins[0]), S.one())
            elif op == 'div':
                self.eq(s, 'value', S.mul(got, ins[1]), ins[0])
            else:
                self.eq(s, 'value', got, want(s))
            for i in range(nelem):
                if i != alias[0]:
                    self.eq(s, 'operand unchanged', self.read(s, es[i]), vs[i])
            if op == 'mul_mpz':
                self.eq(s, 'scalar unchanged', gmp.mget(ex, s, extra[0]), k)

    def do0(self, op):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        st, p, v = self.view_new(st, K, 'a')
        extra = []
        if op == 'set0': want = S.zero()
        elif op == 'set1': want = S.one()
        elif op == 'set_si':
            k = Poly.var('k')
            ex.assume(st, z3.And(to_z3(k) >= -(1 << 63), to_z3(k) < (1 << 63)))
            extra = [SI(64, k, -(1 << 63), (1 << 63) - 1)]
            want = S.scal(k, S.one())
        elif op == 'set_mpz':
            k = Poly.var('k')
            z = st.alloc(16, 'heap', 'z')
            gmp.minit(ex, st, z)
            gmp.mset(ex, st, z, k)
            extra = [z]
            want = S.scal(k, S.one())
        for s, r in self.api(st, op, p, *extra):
            self.path_ok(s)
            self.eq(s, 'value', self.read(s, p), want)

    def dopred(self, op):
        st0, K, S = self.setup()
        st = st0.fork()
        ex = self.ex
        st, a, va = self.view_new(st, K, 'a')
        if op == 'cmp':
            st, b, vb = self.view_new(st, K, 'b')
            rs = self.api(st, op, a, b)
        else:
            rs = self.api(st, op, a)
        for s, r in rs:
            self.path_ok(s)
            if op == 'is0':
                c = S.zero_c(ex, s, va)
            elif op == 'is1':
                c = S.zero_c(ex, s, S.sub(va, S.one()))
            else:
                c = S.zero_c(ex, s, S.sub(va, vb))
                c = (not c) if isinstance(c, bool) else z3.Not(c)
            self.truth(s, 'truth value', r, c)
            self.eq(s, 'operand unchanged', self.read(s, a), va)
            if op == 'cmp':
                self.eq(s, 'operand unchanged', self.read(s, b), vb)

    def doinit(self):
        st0, K, S = self.setup()
        st = st0.fork()
        p = st.alloc(ring.LAY.e_size, 'heap', 'e')
        for s, _ in self.api(st, 'init', p, K):
            for s2, _ in self.api(s, 'clear', p):
                self.path_ok(s2)

    BIN = ['add', 'sub', 'mul', 'div']
    UN = ['square', 'double', 'neg', 'set', 'halve', 'invert', 'mul_si', 'mul_mpz', 'cubic', 'add_ui']
    NUL = ['set0', 'set1', 'set_si', 'set_mpz']
    PRED = ['is0', 'is1', 'cmp']
    skip = ()

    def cases(self):
        for op in self.BIN:
            if op in self.skip: continue
            for al in ALIAS3:
                yield "%s %s" % (op, alname(al)), self.do, (op, al)
        for op in self.UN:
            if op in self.skip: continue
            for al in ALIAS2:
                yield "%s %s" % (op, alname(al)), self.do, (op, al)
        for op in self.NUL:
            if op in self.skip: continue
            yield op, self.do0, (op,)
        for op in self.PRED:
            if op in self.skip: continue
            yield op, self.dopred, (op,)
        yield 'init/clear', self.doinit, ()
        if self.leak:
            yield 'lifecycle', self.lifecycle, ()
            if 'set1' not in self.skip:
                yield 'lifecycle with a value', self.lifecycle, ('set1',)

    def body(self):
        for lb, f, a in self.cases():
            if self.ops and lb.split()[0] not in self.ops:
                continue
            self.case(lb, f, *a)


def alname(al):
    return "(" + ",".join("abcd"[i] for i in al) + ")"


def slotptr(ex, st, K, slot):
    return ex.load(st, Ptr(K.obj, K.off + ring.LAY.off[slot]), __import__('vcg.ir', fromlist=['PtrT']).PtrT(), modules()['api.c'])
