"""Parser for the textual LLVM IR that clang -O0 -g emits for /repo's sources."""
import re

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@!](?:"[^"]*"|[-a-zA-Z$._0-9]+)|!|\.\.\.|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+|[A-Za-z_][A-Za-z0-9_.$]*|[()\[\]{}<>,=*:#|])''')


class Unsupported(Exception):
    pass


def tokenize(s):
    pos = 0
    out = []
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise Unsupported("token: " + s[pos:pos + 60])
        out.append(m.group(1))
        pos = m.end()
        while pos < n and s[pos].isspace():
            pos += 1
    return out


class Type:
    pass


class IntT(Type):
    def __init__(self, w): self.w = w
    def __repr__(self): return "i%d" % self.w


class PtrT(Type):
    def __repr__(self): return "ptr"


class VoidT(Type):
    def __repr__(self): return "void"


class FloatT(Type):
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


class ArrT(Type):
    def __init__(self, n, e): self.n = n; self.e = e
    def __repr__(self): return "[%d x %r]" % (self.n, self.e)


class StructT(Type):
    def __init__(self, fs, packed=False): self.fs = fs; self.packed = packed
    def __repr__(self): return "{%r}" % (self.fs,)


class NamedT(Type):
    def __init__(self, mod, name): self.mod = mod; self.name = name
    def __repr__(self): return self.name


class FuncT(Type):
    pass


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise Unsupported("expected %s got %s in %s" % (x, self.peek(), ' '.join(self.t)))
        self.i += 1

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PtrT()
        elif t == 'void':
            r = VoidT()
        elif t in ('double', 'float', 'x86_fp80'):
            r = FloatT(t)
        elif t == 'metadata' or t == 'label':
            r = VoidT()
        elif re.match(r'i\d+$', t):
            r = IntT(int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ArrT(n, e)
        elif t == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            r = StructT(fs)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                r = StructT(fs, True)
            else:
                raise Unsupported("vector type")
        elif t.startswith('%'):
            r = NamedT(self.m, t)
        else:
            raise Unsupported("type " + t)
        # function type  "ret (args...)"
        if self.peek() == '(' and not isinstance(r, FuncT):
            save = self.i
            try:
                self.next()
                args = []
                while not self.accept(')'):
                    if self.accept('...'):
                        continue
                    args.append(self.type())
                    self.accept(',')
                return FuncT()
            except (Unsupported, IndexError):
                self.i = save
        return r

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg',
             'inreg', 'returned', 'noreturn', 'nounwind', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'tail',
             'notail', 'musttail', 'internal', 'private', 'constant', 'global', 'external', 'hidden', 'inbounds',
             'nsw', 'nuw', 'exact', 'volatile', 'nneg', 'disjoint', 'common', 'fast', 'allocptr', 'thread_local'}

    def attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.i += 1
                continue
            if t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocalign', 'range'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.i += 1
                continue
            break

    def value(self, ty):
        """returns operand tuple"""
        self.attrs()
        t = self.next()
        if t.startswith('%'):
            return ('reg', t)
        if t.startswith('@'):
            return ('glob', t[1:].strip('"'))
        if t == 'null':
            return ('int', 0)
        if t in ('true', 'false'):
            return ('int', 1 if t == 'true' else 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if re.match(r'-?\d+$', t):
            return ('int', int(t))
        if re.match(r'-?\d+\.|0x', t):
            return ('float', t)
        if t == 'getelementptr':
            self.attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while not self.accept(')'):
                et = self.type()
                ops.append((et, self.value(et)))
                self.accept(',')
            return ('gep', bt, ops)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('cast', t, st, v, dt)
        if t.startswith('c"'):
            return ('bytes', unescape(t[2:-1]))
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                xs = []
                while not self.accept('}'):
                    et = self.type()
                    xs.append((et, self.value(et)))
                    self.accept(',')
                self.expect('>')
                return ('agg', xs)
            xs = []
            while not self.accept(close):
                et = self.type()
                xs.append((et, self.value(et)))
                self.accept(',')
            return ('agg', xs)
        raise Unsupported("value " + t + " in " + ' '.join(self.t[:20]))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "res", "a", "line", "dbg")

    def __init__(self, op, res, a, line, dbg=None):
        self.op = op
        self.res = res
        self.a = a
        self.line = line
        self.dbg = dbg


class Function:
    def __init__(self, mod, name, params, ret, internal):
        self.mod = mod
        self.name = name
        self.params = params
        self.ret = ret
        self.internal = internal
        self.blocks = {}
        self.order = []
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'condbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        return []

    def ipdom(self, b):
        """immediate post-dominator of block b, or None"""
        if getattr(self, '_ipd', None) is None:
            full = set(self.order)
            pd = {x: (set(full) if self.succs(x) else {x}) for x in self.order}
            ch = True
            while ch:
                ch = False
                for x in reversed(self.order):
                    ss = self.succs(x)
                    # a block ending in 'unreachable' imposes nothing
                    ss = [y for y in ss if self.blocks[y][-1].op != 'unreachable'] or ss
                    if ss:
                        n = set.intersection(*[pd[y] for y in ss]) | {x}
                        if n != pd[x]:
                            pd[x] = n
                            ch = True
            self._ipd = {}
            for x in self.order:
                c = pd[x] - {x}
                self._ipd[x] = next((y for y in c if pd[y] >= c), None)
        return self._ipd[b]

    def loops(self):
        """natural loops: header -> set of blocks, in program order of headers"""
        if self._loops is not None:
            return self._loops
        entry = self.order[0]
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(self.order) for b in self.order}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == entry:
                    continue
                ps = preds[b]
                if ps:
                    n = set.intersection(*[dom[p] for p in ps]) | {b}
                else:
                    n = {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in self.order:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = {h: loops[h] for h in self.order if h in loops}
        return self._loops


class Module:
    def __init__(self, path, src=None):
        self.path = path
        self.src = src
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.di = {}
        self._layout = {}
        self.parse(open(path).read())

    # ---- layout
    def size_align(self, t):
        if isinstance(t, IntT):
            b = max(1, (t.w + 7) // 8)
            if b in (1, 2, 4, 8, 16):
                return b, min(b, 16)
            return 8, 8
        if isinstance(t, PtrT):
            return 8, 8
        if isinstance(t, FloatT):
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16)}[t.n]
        if isinstance(t, ArrT):
            s, a = self.size_align(t.e)
            return s * t.n, a
        if isinstance(t, NamedT):
            return self.size_align(self.types[t.name])
        if isinstance(t, StructT):
            off = 0
            al = 1
            for f in t.fs:
                s, a = self.size_align(f)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("size of %r" % t)

    def sizeof(self, t):
        return self.size_align(t)[0]

    def resolve(self, t):
        while isinstance(t, NamedT):
            t = self.types[t.name]
        return t

    def field_off(self, t, k):
        t = self.resolve(t)
        off = 0
        for i, f in enumerate(t.fs):
            s, a = self.size_align(f)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if i == k:
                return off, f
            off += s
        raise Unsupported("field")

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        funcs = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types[name.strip()] = StructT([])
                else:
                    self.types[name.strip()] = Parser(self, tokenize(rest)).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                funcs.append((ln, lines[i + 1:j]))
                i = j
            elif ln.startswith('!'):
                self.parse_meta(ln)
            i += 1
        for head, body in funcs:
            self.parse_func(head, body)

    def parse_meta(self, ln):
        m = re.match(r'!(\d+) = (?:distinct )?!(\w+)\((.*)\)\s*$', ln)
        if m:
            self.di[int(m.group(1))] = (m.group(2), m.group(3))
            return
        m = re.match(r'!(\d+) = (?:distinct )?!\{(.*)\}\s*$', ln)
        if m:
            self.di[int(m.group(1))] = ('list', [int(x) for x in re.findall(r'!(\d+)', m.group(2))])

    def di_attr(self, k, a):
        d = self.di.get(k)
        if not d or d[0] == 'list':
            return None
        m = re.search(r'(?:^|, )%s: ("[^"]*"|[^,]+)' % a, d[1])
        return m.group(1).strip('"') if m else None

    def struct_offsets(self, name):
        """member name -> byte offset for struct tag or typedef `name`"""
        def unwind(k):
            # follow typedef / pointer / array / const to struct
            seen = 0
            while k is not None and seen < 20:
                seen += 1
                if self.di[k][0] == 'DICompositeType' and self.di_attr(k, 'tag') == 'DW_TAG_structure_type':
                    return k
                b = self.di_attr(k, 'baseType')
                k = int(b[1:]) if b and b.startswith('!') else None
            return None
        for k, d in self.di.items():
            if d[0] in ('DICompositeType', 'DIDerivedType') and self.di_attr(k, 'name') == name:
                if d[0] == 'DIDerivedType' and self.di_attr(k, 'tag') != 'DW_TAG_typedef':
                    continue
                s = unwind(k)
                if s is None:
                    continue
                el = self.di_attr(s, 'elements')
                if not el:
                    continue
                r = {}
                for mk in self.di[int(el[1:])][1]:
                    off = self.di_attr(mk, 'offset')
                    r[self.di_attr(mk, 'name')] = int(off or 0) // 8
                return r
        return None

    def parse_global(self, ln):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        toks = tokenize(rest)
        p = Parser(self, toks)
        ext = 'external' in toks[:4]
        p.attrs()
        try:
            ty = p.type()
            init = None
            if not ext and p.peek() is not None and p.peek() != ',':
                init = p.value(ty)
            self.globals[name] = (ty, init, ext)
        except Unsupported:
            self.globals[name] = None

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\((.*)\)[^()]*(?:\{|$)', head)
        m0 = re.match(r'define\s+(.*?)@("[^"]*"|[-\w.$]+)\(', head)
        name = m0.group(2).strip('"')
        pre = tokenize(m0.group(1))
        internal = 'internal' in pre
        p = Parser(self, [x for x in pre])
        p.attrs()
        ret = p.type()
        # params
        rest = head[m0.end():]
        d = 1
        k = 0
        while d:
            if rest[k] == '(':
                d += 1
            elif rest[k] == ')':
                d -= 1
            k += 1
        toks = tokenize(rest[:k - 1])
        p = Parser(self, toks)
        params = []
        while p.peek() is not None:
            if p.accept('...'):
                break
            ty = p.type()
            p.attrs()
            params.append((ty, p.next()))
            p.accept(',')
        f = Function(self, name, params, ret, internal)
        f.lines = body
        f.parsed = False
        self.funcs[name] = f

    def ensure(self, f):
        if f.parsed:
            return f
        f.parsed = True
        cur = None
        k = 0
        lines = f.lines
        first = True
        while k < len(lines):
            ln = lines[k]
            k += 1
            if not ln.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%entry0'
                f.blocks[cur] = []
                f.order.append(cur)
            s = ln.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[k].strip().startswith(']'):
                    s += ' ' + lines[k].strip()
                    k += 1
                s += ' ]'
                k += 1
            if '@llvm.dbg.' in s or s.startswith('#dbg'):
                continue
            ins = self.parse_instr(s)
            if ins is not None:
                f.blocks[cur].append(ins)
        return f

    def parse_instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        s0 = re.sub(r', ![\w.]+ !\d+', '', s)
        s0 = re.sub(r' #\d+', '', s0)
        toks = tokenize(s0)
        p = Parser(self, toks)
        res = None
        if len(toks) > 1 and toks[1] == '=':
            res = toks[0]
            p.i = 2
        p.attrs()
        op = p.next()
        line = s
        try:
            return self._instr(p, op, res, line, dbg)
        except Unsupported as e:
            return Instr('unsupported', res, (str(e),), line, dbg)

    def _instr(self, p, op, res, line, dbg):
        if op == 'alloca':
            ty = p.type()
            n = None
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return Instr('alloca', res, (ty, n), line, dbg)
        if op == 'load':
            p.attrs()
            ty = p.type()
            p.expect(',')
            pt = p.type()
            v = p.value(pt)
            return Instr('load', res, (ty, v), line, dbg)
        if op == 'store':
            p.attrs()
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            pt = p.type()
            d = p.value(pt)
            return Instr('store', None, (ty, v, d), line, dbg)
        if op == 'getelementptr':
            p.attrs()
            bt = p.type()
            p.expect(',')
            ops = []
            while p.peek() is not None:
                et = p.type()
                ops.append((et, p.value(et)))
                if not p.accept(','):
                    break
            return Instr('gep', res, (bt, ops), line, dbg)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            p.attrs()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Instr('bin', res, (op, ty, a, b), line, dbg)
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return Instr(op, res, (pred, ty, a, b), line, dbg)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc'):
            p.attrs()
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            dt = p.type()
            return Instr('cast', res, (op, ty, v, dt), line, dbg)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('br', None, (p.next(),), line, dbg)
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return Instr('condbr', None, (c, a, b), line, dbg)
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return Instr('switch', None, (ty, v, d, cases), line, dbg)
        if op == 'ret':
            ty = p.type()
            if isinstance(ty, VoidT):
                return Instr('ret', None, (None, None), line, dbg)
            return Instr('ret', None, (ty, p.value(ty)), line, dbg)
        if op == 'unreachable':
            return Instr('unreachable', None, (), line, dbg)
        if op == 'phi':
            ty = p.type()
            inc = []
            while p.accept('['):
                v = p.value(ty)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                p.accept(',')
            return Instr('phi', res, (ty, inc), line, dbg)
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t1 = p.type()
            a = p.value(t1)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return Instr('select', res, (c, t1, a, b), line, dbg)
        if op == 'call':
            p.attrs()
            ty = p.type()
            if p.peek() == '(':   # vararg function type
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            if isinstance(ty, FuncT):
                ty = None
            callee = p.value(PtrT())
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                args.append((at, p.value(at)))
                p.accept(',')
            # return type from line when FuncT swallowed it
            if ty is None:
                m = re.search(r'call (?:\w+ )*?(i\d+|ptr|void|double) \(', line)
                ty = Parser(self, [m.group(1)]).type() if m else VoidT()
            return Instr('call', res, (ty, callee, args), line, dbg)
        if op == 'freeze':
            ty = p.type()
            return Instr('copy', res, (p.value(ty),), line, dbg)
        if op == 'fneg':
            raise Unsupported('fneg')
        raise Unsupported('op ' + op)

    def src_line(self, dbg):
        l = self.di_attr(dbg, 'line') if dbg is not None else None
        return l
