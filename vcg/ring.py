"""Abstract commutative rings / fields: values, slot contracts, algebraic prover."""
import z3
from fractions import Fraction
from .poly import Poly, P, sym_id, sym_name, fresh_name
from .exec import Ptr, FnPtr, SI, UNDEF, MemError, to_z3
from .ir import Unsupported, PtrT, IntT

# ---------------------------------------------------------------- algebra


def apply_rules(st, p):
    subst = st.subst
    rules = st.data.get('rules', ())
    changed = True
    n = 0
    while changed:
        changed = False
        n += 1
        if n > 60:
            break
        vs = p.vars()
        for v, q in subst:
            if v in vs:
                p = p.subst(v, q)
                vs = p.vars()
                changed = True
        for v, e, tail in rules:
            if v in vs and p.degree_in(v) >= e:
                cs = p.coeffs_in(v)
                r = Poly()
                vp = Poly({((v, 1),): 1})
                for k, c in cs.items():
                    if k >= e:
                        a, b = divmod(k, e)
                        r = r + c * (tail ** a) * (vp ** b if b else P(1))
                    else:
                        r = r + c * (vp ** k if k else P(1))
                p = r
                vs = p.vars()
                changed = True
    return p


def clear_inverses(st, p):
    invs = st.data.get('inv', [])
    for s, d in reversed(invs):
        n = p.degree_in(s)
        if n:
            cs = p.coeffs_in(s)
            r = Poly()
            pw = [P(1)]
            for _ in range(n):
                pw.append(pw[-1] * d)
            for k, c in cs.items():
                r = r + c * pw[n - k]
            p = r
    return p


def char_reduce(st, p):
    ch = st.data.get('char')
    if ch:
        t = {}
        for m, c in p.t.items():
            if isinstance(c, Fraction):
                c = c.numerator * pow(c.denominator, -1, ch)
            c %= ch
            if c:
                t[m] = c
        return Poly(t)
    return p


def normal(st, p):
    p = apply_rules(st, p)
    q = clear_inverses(st, p)
    while q is not p:
        p = apply_rules(st, q)
        q = clear_inverses(st, p)
        if q.t == p.t:
            break
    return char_reduce(st, q)


def value_form(st, p):
    """value-preserving normal form (normal() only preserves whether p is zero)"""
    return char_reduce(st, apply_rules(st, p))


def lookup(st, tab, v, neg=False):
    """entry of a table [(value, x)] whose value is equal to v (or to -v)"""
    for u, x in tab:
        if u == v or normal(st, u - v).is_zero():
            return x, 1
        if neg and normal(st, u + v).is_zero():
            return x, -1
    return None


def canon(p):
    """scale so that the first monomial has coefficient 1"""
    if p.is_zero():
        return p
    m = min(p.t)
    c = p.t[m]
    if c == 1:
        return p
    return Poly({k: (Fraction(v) / c if (v % c if isinstance(v, int) and isinstance(c, int) else 1) else v // c) for k, v in p.t.items()})


def const_nonzero(st, c):
    """is the integer constant c known to be a non-zero ring element?"""
    ch = st.data.get('char')
    if ch:
        return c % ch != 0
    if isinstance(c, Fraction):
        c = c.numerator
    c = abs(int(c))
    for q in (2, 3):
        while c % q == 0 and c:
            c //= q
    return c == 1      # units 2^a 3^b: characteristic assumed > 3


def strip_nonzero(st, q):
    """divide canonical poly by known-nonzero single variables"""
    nzv = set()
    for n in st.nonzeros:
        n = normal(st, n)
        if len(n.t) == 1:
            m = next(iter(n.t))
            for v, _ in m:
                nzv.add(v)
    for v in nzv:
        while q.t and all(any(w == v for w, _ in m) for m in q.t):
            t = {}
            for m, c in q.t.items():
                t[tuple((w, e - 1 if w == v else e) for w, e in m if not (w == v and e == 1))] = c
            q = Poly(t)
    # divide by known-nonzero polynomials
    ch = st.data.get('char')
    for n in st.nonzeros:
        if len(q.t) < 2:
            break
        n = normal(st, n)
        if len(n.t) < 2 or len(n.t) > len(q.t) * 4 or not n.vars() <= q.vars():
            continue
        for v, e in n.lead():
            if q.degree_in(v) < e:
                break
        else:
            while True:
                d = q.exact_div(n, ch)
                if d is None:
                    break
                q = d
                if q.is_const():
                    break
    return q


def prove_zero(st, g, deep=True):
    """True / False(definitely not provable by normalisation)"""
    g = normal(st, g)
    if g.is_zero():
        return True
    g = strip_nonzero(st, g)
    nz = [normal(st, n) for n in st.nonzeros]
    nz = [n for n in nz if not n.is_const() and len(n.t) < 60]
    for n in nz:
        if normal(st, g * n).is_zero():
            return True
    if st.zeros:
        # general equalities: ideal membership with Groebner basis
        if groebner_member(st, g, nz):
            return True
    if deep and len(g.t) < 400:
        for i, n in enumerate(nz):
            for m in nz[i:]:
                if normal(st, g * n * m).is_zero():
                    return True
    return False


def groebner_member(st, g, nz):
    import sympy
    zs = [normal(st, z) for z in st.zeros]
    zs = [z for z in zs if not z.is_zero()]
    if not zs or len(zs) > 6 or sum(len(z.t) for z in zs) > 200 or len(g.t) > 300:
        return False
    vs = set(g.vars())
    for z in zs:
        vs |= z.vars()
    for n in nz:
        vs |= n.vars()
    if len(vs) > 14:
        return False
    names = {v: sympy.Symbol("s%d" % v) for v in vs}
    T = sympy.Symbol("Trab")

    def conv(p):
        return sum((sympy.Rational(c.numerator, c.denominator) if isinstance(c, Fraction) else sympy.Integer(c)) *
                   sympy.prod([names[v] ** e for v, e in m]) for m, c in p.t.items())
    polys = [conv(z) for z in zs]
    rab = conv(g)
    for n in nz:
        rab = rab * conv(n)
    try:
        # radical membership with saturation: 1 in <zs, 1 - T*g*nz...>
        G = sympy.groebner(polys + [1 - T * rab], T, *[names[v] for v in sorted(vs)], order='grevlex')
        return G.exprs == [1] or any(e == 1 for e in G.exprs)
    except Exception:
        return False


def zero_cond(ex, st, p):
    """Condition (bool or z3 Bool) that ring polynomial p == 0"""
    p = normal(st, p)
    if p.is_zero():
        return True
    if p.is_const() and const_nonzero(st, p.const_value()):
        return False
    p = strip_nonzero(st, canon(p))
    p = canon(p)
    if p.is_const() and const_nonzero(st, p.const_value()):
        return False
    for n in st.nonzeros:
        if canon(normal(st, n)) == p:
            return False
    if prove_zero(st, p, deep=False):
        return True
    key = p.key()
    tab = st.data.setdefault('ztab', {})
    name = tab.get(key)
    if name is None:
        name = fresh_name("Z")
        tab[key] = name
        st.atoms[name] = ('zero', p, None)
    return z3.Bool(name)


def learn_atom(ex, st, kind, poly, val):
    if kind == 'zero':
        if val:
            return add_zero(st, poly)
        n = normal(st, poly)
        if n.is_zero() or prove_zero(st, n, deep=False):
            return False
        st.nonzeros.append(poly)
        return True
    return True


def add_zero(st, p):
    p = normal(st, p)
    if p.is_zero():
        return True
    if p.is_const():
        return not const_nonzero(st, p.const_value())
    best = None
    invv = {s for s, _ in st.data.get('inv', [])}
    rulev = {v for v, _, _ in st.data.get('rules', ())}
    # linear in a variable with unit coefficient?
    for v in sorted(p.vars(), reverse=True):
        if v in invv:
            continue
        cs = p.coeffs_in(v)
        if set(cs) <= {0, 1} and cs[1].is_const() and const_nonzero(st, cs[1].const_value()):
            best = (v, cs)
            break
    if best is not None:
        v, cs = best
        c = cs[1].const_value()
        rhs = -cs.get(0, Poly())
        if st.data.get('char'):
            rhs = char_reduce(st, rhs.scale(pow(c, -1, st.data['char'])))
        else:
            rhs = rhs.scale(Fraction(1) / c) if c not in (1, -1) else rhs.scale(c)
        st.subst.append((v, rhs))
        for i, (w, e, tail) in enumerate(list(st.data.get('rules', ()))):
            if w == v:
                # the rule for v becomes an extra equation
                if not add_zero(st, rhs ** e - tail):
                    return False
    else:
        st.zeros.append(p)
    for n in st.nonzeros:
        m = normal(st, n)
        if m.is_zero():
            return False
    return True


def inverse(ex, st, d, what="inversion"):
    """a fresh symbol i with i*d == 1; caller must have established d != 0"""
    d = apply_rules(st, d)
    if d.is_const() and d.const_value() in (1, -1):
        return d
    if d.is_const() and not st.data.get('char'):
        return P(Fraction(1) / d.const_value())
    tab = st.data.setdefault('invtab', {})
    k = d.key()
    if k in tab:
        return tab[k]
    nm = fresh_name("inv")
    i = Poly.var(nm)
    st.data.setdefault('inv', []).append((sym_id(nm), d))
    tab[k] = i
    return i


# ---------------------------------------------------------------- fields

class FieldLayout:
    """byte offsets in struct field_s / element_s taken from the debug info"""
    def __init__(self, mod):
        self.off = mod.struct_offsets('field_s')
        self.size = mod.sizeof(mod.types['%struct.field_s'])
        self.byoff = {v: k for k, v in self.off.items()}
        e = mod.struct_offsets('element_s')
        self.e_field = e['field']
        self.e_data = e['data']
        self.e_size = mod.sizeof(mod.types['%struct.element_s'])


LAY = None
DATA_SLOTS = {'data', 'order', 'nqr', 'name', 'pairing', 'fixed_length_in_bytes'}


class Desc:
    """abstract field: its slots satisfy the interface contract"""

    def __init__(self, kind, name="F"):
        self.kind = kind
        self.name = name
        self.ptr = None
        self.is_field = True
        self.base = None
        self.nqr = None
        self.order = None
        self.char2ok = False

    def load_slot(self, ex, st, o, off, ty):
        nm = LAY.byoff.get(off)
        if nm is None or nm in DATA_SLOTS:
            return None
        return FnPtr(self.name + "." + nm, None, nm, self)

    # structured value access --------------------------------------
    def new_data(self, st):
        raise NotImplementedError

    def call_slot(self, ex, st, slot, args):
        f = getattr(self, 's_' + slot, None)
        if f is None:
            raise Unsupported("slot %s of abstract %s" % (slot, self.kind))
        return f(ex, st, *args)

    # common slots
    def s_init(self, ex, st, e):
        d = self.new_data(st)
        setcell(st, e, LAY.e_data, d)
        return None

    def s_clear(self, ex, st, e):
        d = getcell(st, e, LAY.e_data)
        if not isinstance(d, Ptr):
            raise MemError("element_clear of uninitialised element")
        o = st.objs[d.obj]
        if o.freed:
            raise MemError("element cleared twice")
        self.free_data(st, d)
        return None

    def free_data(self, st, d):
        st.wobj(d.obj).freed = True

    def s_set(self, ex, st, n, a):
        put(ex, st, n, get(ex, st, a))

    def s_set0(self, ex, st, n):
        put(ex, st, n, self.zero())

    def s_set1(self, ex, st, n):
        put(ex, st, n, self.one())

    def s_add(self, ex, st, n, a, b):
        put(ex, st, n, self.add(get(ex, st, a), get(ex, st, b)))

    def s_sub(self, ex, st, n, a, b):
        put(ex, st, n, self.sub(get(ex, st, a), get(ex, st, b)))

    def s_mul(self, ex, st, n, a, b):
        put(ex, st, n, self.mul(get(ex, st, a), get(ex, st, b)))

    def s_square(self, ex, st, n, a):
        v = get(ex, st, a)
        put(ex, st, n, self.mul(v, v))

    def s_cubic(self, ex, st, n, a):
        v = get(ex, st, a)
        put(ex, st, n, self.mul(v, self.mul(v, v)))

    def s_doub(self, ex, st, n, a):
        v = get(ex, st, a)
        put(ex, st, n, self.add(v, v))

    def s_neg(self, ex, st, n, a):
        put(ex, st, n, self.scal(-1, get(ex, st, a)))

    def s_halve(self, ex, st, n, a):
        ch = st.data.get('char')
        h = pow(2, -1, ch) if ch else Fraction(1, 2)
        put(ex, st, n, self.scal(h, get(ex, st, a)))

    def s_mul_si(self, ex, st, n, a, z):
        put(ex, st, n, self.scal(ex.as_s(st, z, 64), get(ex, st, a)))

    def s_mul_mpz(self, ex, st, n, a, z):
        from . import gmp
        put(ex, st, n, self.scal(gmp.mget(ex, st, z), get(ex, st, a)))

    def s_set_si(self, ex, st, n, z):
        put(ex, st, n, self.scal(ex.as_s(st, z, 64), self.one()))

    def s_set_mpz(self, ex, st, n, z):
        from . import gmp
        put(ex, st, n, self.scal(gmp.mget(ex, st, z), self.one()))

    def s_cmp(self, ex, st, a, b):
        c = self.zero_c(ex, st, self.sub(get(ex, st, a), get(ex, st, b)))
        return cmp_result(ex, st, c)

    def s_is0(self, ex, st, a):
        return bool_result(ex, st, self.zero_c(ex, st, get(ex, st, a)))

    def s_is1(self, ex, st, a):
        return bool_result(ex, st, self.zero_c(ex, st, self.sub(get(ex, st, a), self.one())))

    def s_invert(self, ex, st, n, a):
        v = get(ex, st, a)
        c = self.zero_c(ex, st, v)
        outs = []
        for s, z in ex.branch(st, c if isinstance(c, (bool, int)) else c):
            if z:
                if self.order is not None or True:
                    raise_undefined(ex, s, "inversion of zero")
                    put(ex, s, n, self.fresh(s, "undef"))
                    s.data['undef'] = s.data.get('undef', 0) + 1
                    outs.append((s, None))
            else:
                put(ex, s, n, self.inv(ex, s, v))
                outs.append((s, None))
        return outs

    def s_div(self, ex, st, n, a, b):
        v = get(ex, st, b)
        c = self.zero_c(ex, st, v)
        outs = []
        for s, z in ex.branch(st, c):
            if z:
                raise_undefined(ex, s, "division by zero")
                put(ex, s, n, self.fresh(s, "undef"))
                outs.append((s, None))
            else:
                put(ex, s, n, self.mul(get(ex, s, a), self.inv(ex, s, v)))
                outs.append((s, None))
        return outs

    def s_random(self, ex, st, n):
        put(ex, st, n, self.fresh(st, "rnd"))

    def s_from_hash(self, ex, st, n, data, ln):
        k = ('hash', self, data, ln)
        t = st.data.setdefault('hash', {})
        if k not in t:
            t[k] = self.fresh(st, "hash")
        put(ex, st, n, t[k])

    def s_field_clear(self, ex, st, f):
        return None

    def s_item_count(self, ex, st, a):
        return 0

    def s_is_sqr(self, ex, st, a):
        v = get(ex, st, a)
        return bool_result(ex, st, self.sqr_c(ex, st, v))

    def sqr_c(self, ex, st, v):
        raise Unsupported("is_sqr")

    def s_pow_mpz(self, ex, st, n, a, z):
        from . import gmp
        e = gmp.mget(ex, st, z)
        v = get(ex, st, a)
        put(ex, st, n, self.power(ex, st, v, e))

    def power(self, ex, st, v, e):
        if e.is_const() and 0 <= e.const_value() <= 12:
            r = self.one()
            for _ in range(int(e.const_value())):
                r = self.mul(r, v)
            return r
        t = st.data.setdefault('pow', {})
        k = (self.name, repr(v), e.key())
        if k not in t:
            t[k] = self.fresh(st, "pow")
            st.data.setdefault('powinfo', []).append((t[k], v, e))
        return t[k]


def raise_undefined(ex, st, what):
    """An operation outside its domain happened on this path; recorded, judged by the unit."""
    st.data.setdefault('undefined_ops', []).append(what + " at " + ex.where(st))


def bool_result(ex, st, c):
    if isinstance(c, bool):
        return 1 if c else 0
    return ex.bool_si(st, c, 32)


def cmp_result(ex, st, zc):
    """int that is 0 iff zc"""
    if zc is True:
        return 0
    if zc is False:
        p = Poly.fresh("cmp")
        z = to_z3(p)
        ex.assume(st, z3.And(z != 0, z >= -(1 << 31), z < (1 << 31)))
        return SI(32, p, -(1 << 31), (1 << 31) - 1, z3.BoolVal(True))
    p = Poly.fresh("cmp")
    z = to_z3(p)
    ex.assume(st, z3.And(z >= -(1 << 31), z < (1 << 31), (z == 0) == zc))
    return SI(32, p, -(1 << 31), (1 << 31) - 1, z3.Not(zc))


def setcell(st, ptr, off, v, n=8):
    if not isinstance(ptr, Ptr):
        raise MemError("store through %r" % (ptr,))
    o = st.wobj(ptr.obj)
    if o.freed:
        raise MemError("store to freed object")
    o.cells[ptr.off + off] = (n, v)


def getcell(st, ptr, off):
    if not isinstance(ptr, Ptr):
        raise MemError("access through %s" % ("null pointer" if ptr == 0 else repr(ptr)))
    o = st.objs[ptr.obj]
    if o.freed:
        raise MemError("use of freed object " + str(o.name))
    c = o.cells.get(ptr.off + off)
    if c is None:
        raise MemError("use of uninitialised element in " + str(o.name))
    return c[1]


def getcell_raw(st, e):
    """data pointer of an element, also of one in a released object"""
    return st.objs[e.obj].cells[e.off + LAY.e_data][1]


def fdesc(st, fptr):
    if not isinstance(fptr, Ptr):
        raise MemError("element with no field")
    d = st.objs[fptr.obj].desc
    if isinstance(d, Embedded):
        return d.subs.get(fptr.off)
    return d


class Embedded:
    """descriptors of field structures embedded in a larger structure"""

    def __init__(self):
        self.subs = {}

    def load_slot(self, ex, st, o, off, ty):
        for b, d in self.subs.items():
            if b <= off < b + LAY.size:
                return d.load_slot(ex, st, o, off - b, ty)
        return None


def embed_field(st, ptr, desc):
    o = st.wobj(ptr.obj)
    if o.desc is None:
        o.desc = Embedded()
        o.fill = 0
    o.desc.subs[ptr.off] = desc
    o.mpz = dict(o.mpz or {})
    o.mpz[ptr.off + LAY.off['order']] = Poly.var("order_" + desc.name)
    desc.ptr = ptr
    return ptr


def edesc(st, e):
    d = fdesc(st, getcell(st, e, LAY.e_field))
    if d is None:
        raise Unsupported("element of concrete field used abstractly")
    return d


def get(ex, st, e):
    d = edesc(st, e)
    return d.read(ex, st, getcell(st, e, LAY.e_data))


def put(ex, st, e, v):
    d = edesc(st, e)
    d.write(ex, st, getcell(st, e, LAY.e_data), v)


def new_elem(ex, st, desc, val=None, name="e"):
    p = st.alloc(LAY.e_size, 'heap', name)
    setcell(st, p, LAY.e_field, desc.ptr)
    setcell(st, p, LAY.e_data, desc.new_data(st))
    if val is not None:
        put(ex, st, p, val)
    return p


def embed_elem(ex, st, p, desc, val=None):
    """element_t inside a structure"""
    setcell(st, p, LAY.e_field, desc.ptr)
    setcell(st, p, LAY.e_data, desc.new_data(st))
    if val is not None:
        put(ex, st, p, val)
    return p


class Base(Desc):
    """abstract commutative ring with 1 (a field when is_field)"""

    def __init__(self, name="F", is_field=True):
        super().__init__('Base', name)
        self.is_field = is_field

    def new_data(self, st):
        p = st.alloc(8, 'heap', self.name + "-data")
        st.wobj(p.obj).ghost = P(0)
        return p

    def read(self, ex, st, d):
        if not isinstance(d, Ptr):
            raise MemError("element data pointer invalid")
        o = st.objs[d.obj]
        if o.freed:
            raise MemError("use of cleared element")
        if o.ghost is None:
            raise Unsupported("abstract element expected")
        return o.ghost

    def write(self, ex, st, d, v):
        o = st.objs[d.obj]
        if o.freed:
            raise MemError("use of cleared element")
        st.wobj(d.obj).ghost = v

    def zero(self): return P(0)
    def one(self): return P(1)
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def scal(self, k, a): return P(k) * a
    def zero_c(self, ex, st, v): return zero_cond(ex, st, v)
    def inv(self, ex, st, v): return inverse(ex, st, v)
    def fresh(self, st, nm): return Poly.fresh(self.name + "_" + nm)

    def sqr_c(self, ex, st, v):
        v = value_form(st, v)
        z = zero_cond(ex, st, v)
        if z is True or st.data.get('assume_sqr'):
            return True
        t = st.data.get('sqrtab', ())
        k = lookup(st, t, v)
        if k is None:
            n = z3.Bool(fresh_name("SQ"))
            st.data['sqrtab'] = tuple(t) + ((v, n),)
            if z is not False:
                ex.assume(st, z3.Implies(z, n))
            return n
        return k[0]

    def s_sqrt(self, ex, st, n, a):
        v = get(ex, st, a)
        c = self.sqr_c(ex, st, v)
        if not isinstance(c, bool):
            if ex.check(st, [z3.Not(c)]) != z3.unsat:
                raise_undefined(ex, st, "square root of a possible non-residue")
        r = self.sqrt_val(ex, st, v)
        put(ex, st, n, r)

    def sqrt_val(self, ex, st, v):
        v = value_form(st, v)
        t = st.data.get('sqrtval', ())
        k = lookup(st, t, v)
        if k is None:
            r = Poly.fresh("sqrt")
            st.data['sqrtval'] = tuple(t) + ((v, r),)
            st.data['rules'] = list(st.data.get('rules', ())) + [(next(iter(r.t))[0][0], 2, v)]
            return r
        return k[0]

    def s_sign(self, ex, st, a):
        v = value_form(st, get(ex, st, a))
        t = st.data.get('sign', ())
        k = lookup(st, t, v, True)
        if k is None:
            p = Poly.fresh("sign")
            z = to_z3(p)
            zc = zero_cond(ex, st, v)
            zc = z3.BoolVal(zc) if isinstance(zc, bool) else zc
            ex.assume(st, z3.And(z >= -1, z <= 1, (z == 0) == zc))
            st.data['sign'] = tuple(t) + ((v, p),)
            k = p, 1
        return SI(32, k[0] * k[1], -1, 1)

    def s_to_mpz(self, ex, st, z, a):
        from . import gmp
        v = value_form(st, get(ex, st, a))
        t = st.data.get('tompz', ())
        k = lookup(st, t, v)
        if k is None:
            k = Poly.fresh("int_of"), 1
            st.data['tompz'] = tuple(t) + ((v, k[0]),)
        gmp.mset(ex, st, z, k[0])


def mk_field(ex, st, desc):
    p = st.alloc(LAY.size, 'heap', 'field ' + desc.name)
    o = st.wobj(p.obj)
    o.desc = desc
    o.fill = 0
    o.mpz = {LAY.off['order']: Poly.var("order_" + desc.name)}
    desc.ptr = p
    return p


class Pair(Desc):
    """abstract quadratic extension base[sqrt(nqr)]"""

    def __init__(self, base, nqr, name="F2"):
        super().__init__('Quad', name)
        self.base = base
        self.nqr = P(nqr)

    def new_data(self, st):
        p = st.alloc(2 * LAY.e_size, 'heap', self.name + "-data")
        for k in range(2):
            setcell(st, p, k * LAY.e_size + LAY.e_field, self.base.ptr)
            setcell(st, p, k * LAY.e_size + LAY.e_data, self.base.new_data(st))
        return p

    def item(self, d, k):
        return Ptr(d.obj, d.off + k * LAY.e_size)

    def read(self, ex, st, d):
        return (get(ex, st, self.item(d, 0)), get(ex, st, self.item(d, 1)))

    def write(self, ex, st, d, v):
        put(ex, st, self.item(d, 0), v[0])
        put(ex, st, self.item(d, 1), v[1])

    def free_data(self, st, d):
        for k in range(2):
            self.base.free_data(st, getcell(st, self.item(d, k), LAY.e_data))
        st.wobj(d.obj).freed = True

    def zero(self): return (self.base.zero(), self.base.zero())
    def one(self): return (self.base.one(), self.base.zero())
    def add(self, a, b): return (self.base.add(a[0], b[0]), self.base.add(a[1], b[1]))
    def sub(self, a, b): return (self.base.sub(a[0], b[0]), self.base.sub(a[1], b[1]))
    def scal(self, k, a): return (self.base.scal(k, a[0]), self.base.scal(k, a[1]))

    def mul(self, a, b):
        B = self.base
        x = B.add(B.mul(a[0], b[0]), B.scal(self.nqr, B.mul(a[1], b[1])))
        y = B.add(B.mul(a[0], b[1]), B.mul(a[1], b[0]))
        return (x, y)

    def zero_c(self, ex, st, v):
        return conj(self.base.zero_c(ex, st, v[0]), self.base.zero_c(ex, st, v[1]))

    def inv(self, ex, st, v):
        B = self.base
        n = B.sub(B.mul(v[0], v[0]), B.scal(self.nqr, B.mul(v[1], v[1])))
        i = B.inv(ex, st, n)
        return (B.mul(v[0], i), B.scal(-1, B.mul(v[1], i)))

    def fresh(self, st, nm):
        return (self.base.fresh(st, nm + "_re"), self.base.fresh(st, nm + "_im"))

    def s_get_x(self, ex, st, e):
        return self.item(getcell(st, e, LAY.e_data), 0)

    def s_get_y(self, ex, st, e):
        return self.item(getcell(st, e, LAY.e_data), 1)

    def s_item(self, ex, st, e, i):
        return self.item(getcell(st, e, LAY.e_data), i)

    def s_item_count(self, ex, st, e):
        return 2


def conj(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


class PolyMod(Desc):
    """abstract base[x]/(x^n + c_{n-1} x^{n-1} + ... + c_0)"""

    def __init__(self, base, coeffs, name="Fn"):
        super().__init__('PolyMod', name)
        self.base = base
        self.n = len(coeffs)
        self.coeffs = coeffs     # base values

    def new_data(self, st):
        p = st.alloc(self.n * LAY.e_size, 'heap', self.name + "-data")
        for k in range(self.n):
            setcell(st, p, k * LAY.e_size + LAY.e_field, self.base.ptr)
            setcell(st, p, k * LAY.e_size + LAY.e_data, self.base.new_data(st))
        return p

    def item(self, d, k):
        return Ptr(d.obj, d.off + k * LAY.e_size)

    def read(self, ex, st, d):
        return tuple(get(ex, st, self.item(d, k)) for k in range(self.n))

    def write(self, ex, st, d, v):
        for k in range(self.n):
            put(ex, st, self.item(d, k), v[k])

    def free_data(self, st, d):
        for k in range(self.n):
            self.base.free_data(st, getcell(st, self.item(d, k), LAY.e_data))
        st.wobj(d.obj).freed = True

    def zero(self): return tuple(self.base.zero() for _ in range(self.n))
    def one(self): return (self.base.one(),) + tuple(self.base.zero() for _ in range(self.n - 1))
    def add(self, a, b): return tuple(self.base.add(x, y) for x, y in zip(a, b))
    def sub(self, a, b): return tuple(self.base.sub(x, y) for x, y in zip(a, b))
    def scal(self, k, a): return tuple(self.base.scal(k, x) for x in a)

    def mul(self, a, b):
        B = self.base
        r = [B.zero() for _ in range(2 * self.n - 1)]
        for i in range(self.n):
            for j in range(self.n):
                r[i + j] = B.add(r[i + j], B.mul(a[i], b[j]))
        for k in range(2 * self.n - 2, self.n - 1, -1):
            for j in range(self.n):
                r[k - self.n + j] = B.sub(r[k - self.n + j], B.mul(r[k], self.coeffs[j]))
        return tuple(r[:self.n])

    def zero_c(self, ex, st, v):
        c = True
        for x in v:
            c = conj(c, self.base.zero_c(ex, st, x))
        return c

    def inv(self, ex, st, v):
        raise Unsupported("abstract polymod inverse")

    def fresh(self, st, nm):
        return tuple(self.base.fresh(st, "%s_%d" % (nm, k)) for k in range(self.n))

    def s_item(self, ex, st, e, i):
        if not isinstance(i, int):
            raise Unsupported("symbolic item index")
        i %= 1 << 32
        if i >= self.n:
            raise MemError("coefficient index out of range")
        return self.item(getcell(st, e, LAY.e_data), i)

    def s_item_count(self, ex, st, e):
        return self.n


class Curve(Desc):
    """abstract curve group y^2 = x^3 + a x + b over base; values None (O) or (x, y)"""

    def __init__(self, base, a, b, name="E"):
        super().__init__('Curve', name)
        self.base = base
        self.a = a
        self.b = b

    def new_data(self, st):
        p = st.alloc(8 + 2 * LAY.e_size, 'heap', self.name + "-point")
        setcell(st, p, 0, 1, 4)
        for k in range(2):
            setcell(st, p, 8 + k * LAY.e_size + LAY.e_field, self.base.ptr)
            setcell(st, p, 8 + k * LAY.e_size + LAY.e_data, self.base.new_data(st))
        return p

    def xp(self, d): return Ptr(d.obj, d.off + 8)
    def yp(self, d): return Ptr(d.obj, d.off + 8 + LAY.e_size)

    def read(self, ex, st, d):
        inf = getcell(st, d, 0)
        if inf:
            return None
        return (get(ex, st, self.xp(d)), get(ex, st, self.yp(d)))

    def write(self, ex, st, d, v):
        if v is None:
            setcell(st, d, 0, 1, 4)
        else:
            setcell(st, d, 0, 0, 4)
            put(ex, st, self.xp(d), v[0])
            put(ex, st, self.yp(d), v[1])

    def free_data(self, st, d):
        for q in (self.xp(d), self.yp(d)):
            self.base.free_data(st, getcell(st, q, LAY.e_data))
        st.wobj(d.obj).freed = True

    def zero(self): return None
    def one(self): return None

    def fresh(self, st, nm):
        x = self.base.fresh(st, nm + "x")
        y = self.base.fresh(st, nm + "y")
        return (x, y)

    def neg(self, a):
        return None if a is None else (a[0], self.base.scal(-1, a[1]))

    def sum(self, ex, st, a, b):
        """list of (state, value)"""
        B = self.base
        if a is None:
            return [(st, b)]
        if b is None:
            return [(st, a)]
        outs = []
        for s, same in ex.branch(st, B.zero_c(ex, st, B.sub(a[0], b[0]))):
            if not same:
                lam = B.mul(B.sub(b[1], a[1]), B.inv(ex, s, B.sub(b[0], a[0])))
                x = B.sub(B.sub(B.mul(lam, lam), a[0]), b[0])
                y = B.sub(B.mul(lam, B.sub(a[0], x)), a[1])
                outs.append((s, (x, y)))
                continue
            for s2, opp in ex.branch(s, B.zero_c(ex, s, B.add(a[1], b[1]))):
                if opp:
                    outs.append((s2, None))
                else:
                    lam = B.mul(B.add(B.scal(3, B.mul(a[0], a[0])), self.a), B.inv(ex, s2, B.scal(2, a[1])))
                    x = B.sub(B.mul(lam, lam), B.scal(2, a[0]))
                    y = B.sub(B.mul(lam, B.sub(a[0], x)), a[1])
                    outs.append((s2, (x, y)))
        return outs

    def _two(self, ex, st, n, a, b):
        outs = []
        for s, v in self.sum(ex, st, a, b):
            put(ex, s, n, v)
            outs.append((s, None))
        return outs

    def s_add(self, ex, st, n, a, b):
        return self._two(ex, st, n, get(ex, st, a), get(ex, st, b))
    s_mul = s_add

    def s_doub(self, ex, st, n, a):
        v = get(ex, st, a)
        return self._two(ex, st, n, v, v)
    s_square = s_doub

    def s_sub(self, ex, st, n, a, b):
        return self._two(ex, st, n, get(ex, st, a), self.neg(get(ex, st, b)))
    s_div = s_sub

    def s_neg(self, ex, st, n, a):
        put(ex, st, n, self.neg(get(ex, st, a)))
    s_invert = s_neg

    def s_multi_doub(self, ex, st, c, a, n):
        if not isinstance(n, int):
            raise Unsupported("symbolic batch")
        sts = [st]
        for i in range(n):
            nx = []
            for s in sts:
                ai, ci = (getcell(s, p, 8 * i) for p in (a, c))
                nx += [x for x, _ in self.s_doub(ex, s, ci, ai)]
            sts = nx
        return [(s, None) for s in sts]

    def s_multi_add(self, ex, st, c, a, b, n):
        if not isinstance(n, int):
            raise Unsupported("symbolic batch")
        sts = [st]
        for i in range(n):
            nx = []
            for s in sts:
                ps = [getcell(s, p, 8 * i) for p in (c, a, b)]
                nx += [x for x, _ in self.s_add(ex, s, *ps)]
            sts = nx
        return [(s, None) for s in sts]

    def zero_c(self, ex, st, v):
        return v is None

    def s_is0(self, ex, st, a):
        return 1 if get(ex, st, a) is None else 0
    s_is1 = s_is0

    def s_cmp(self, ex, st, a, b):
        u, v = get(ex, st, a), get(ex, st, b)
        if u is None or v is None:
            return 0 if u is v else 1
        B = self.base
        return cmp_result(ex, st, conj(B.zero_c(ex, st, B.sub(u[0], v[0])), B.zero_c(ex, st, B.sub(u[1], v[1]))))

    def s_get_x(self, ex, st, e): return self.xp(getcell(st, e, LAY.e_data))
    def s_get_y(self, ex, st, e): return self.yp(getcell(st, e, LAY.e_data))
    def s_item(self, ex, st, e, i): return self.xp(getcell(st, e, LAY.e_data)) if i == 0 else self.yp(getcell(st, e, LAY.e_data))


def half(st):
    ch = st.data.get('char')
    return pow(2, -1, ch) if ch else Fraction(1, 2)
