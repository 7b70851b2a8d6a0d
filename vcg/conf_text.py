"""Bounded conformance: parameter text (C12), element text (C13)"""
import os
from .conf import Case, ANY
from .oracle import *
from .conf_arith import *
from .conf_elem import field_zoo, zoo_vals, desc, find_curve
from . import params
from .conf_pair import hx
from .build import REPO


# ------------------------------------------------------------------ C12

ORDER = dict(a=['q', 'h', 'r', 'exp2', 'exp1', 'sign1', 'sign0'], a1=['p', 'n', 'l'],
             d=['q', 'n', 'h', 'r', 'a', 'b', 'k', 'nk', 'hk'], e=['q', 'r', 'h', 'a', 'b', 'exp2', 'exp1', 'sign1', 'sign0'],
             f=['q', 'r', 'b', 'beta', 'alpha0', 'alpha1'], g=['q', 'n', 'h', 'r', 'a', 'b', 'nk', 'hk'], i=['m', 't', 'n', 'n2'])


def known_sets():
    out = []
    for f in sorted(os.listdir(os.path.join(REPO, 'param'))):
        if f.endswith('.param'):
            out.append(open(os.path.join(REPO, 'param', f)).read())
    out += [t for _, _, _, t in params.type_a(6)[:4]] + [t for _, _, _, t in params.type_a1([13, 101 * 103])]
    for L in (params.D, params.G, params.E_, params.F_):
        out += params.listed(L)
    out.append("type i\nm 97\nt 12\nn 2726865189058261010774960798134976187171462721\nn2 7\n")
    return out


def same(fields):
    """predicate: the printed parameters have exactly these fields and values"""
    def f(got):
        d = {}
        for l in got.strip().strip('|').split('|'):
            k = l.split(' ')
            if len(k) != 2:
                return "malformed line %r" % l
            d[k[0]] = k[1]
        return True if d == fields else "fields differ: %s" % [(k, d.get(k), fields.get(k)) for k in sorted(set(d) | set(fields)) if d.get(k) != fields.get(k)][:3]
    return f


def layout(rnd, pairs, style):
    ws = [' ', '\t', '\n', '\r\n', '  ', ' \t ']
    o = ''
    for k, v in pairs:
        if style and rnd.random() < .3:
            o += rnd.choice(['# a comment\n', '#type z\n', '  # q 1\n', '#\n', '##<>/\n', '# a\rtype z q 5\n', '#\r q 7\n', '#\t\v\f zz \r\r x\r\n', '#' * 70 + ' type a1\n', '# "\' \\\n'])
        if style:
            o += ''.join(rnd.choice(ws) for _ in range(rnd.randrange(3)))
        o += k + (rnd.choice(ws) if style else ' ') + v + (rnd.choice(['\n', '\r\n', ' ', '\n\n', '\t']) if style else '\n')
    if style == 2:
        o = o.rstrip() if rnd.random() < .5 else o + '# end'
    return o


def numform(rnd, v):
    n = int(v)
    if n < 0:
        return v
    r = rnd.random()
    return v if r < .6 else hex(n) if r < .8 else '0X%X' % n if r < .9 else bin(n)


def c12(rnd, big):
    out = []
    sets = known_sets()
    for si, t in enumerate(sets):
        fl = params.fields(t)
        ty = fl['type']
        if ty == 'g':
            fl.pop('k', None)
        c = Case("parameters type %s #%d" % (ty, si))
        nm = [0]

        def parse(text, want, exact=True):
            nm[0] += 1
            n = "p%d" % nm[0]
            c.q("param %s %s" % (n, hx(text)), want)
            return n
        for k in range(10 if not big else 40):
            pairs = list(fl.items())
            style = k % 3
            if k:
                rnd.shuffle(pairs)
            if k >= 5:
                pairs = [(a, b if a == 'type' else numform(rnd, b)) for a, b in pairs]
            if k >= 7:
                # an unknown field is ignored, and of two equal names the last one counts
                pairs.insert(rnd.randrange(len(pairs) + 1), (rnd.choice(['zz', 'qq', 'coeff99', 'typ', 'types', 'k2']), 'junk'))
                x = rnd.choice([p for p in pairs if p[0] in fl])
                i = pairs.index(x)
                pairs.insert(rnd.randrange(i + 1), (x[0], rnd.choice(['7', '1', 'zzz'])))
            text = layout(rnd, pairs, style)
            n = parse(text, "0")
            c.q("paramout " + n, same(fl))
            # zero byte ends the text early; the length ends it early
            n = parse(text + ' ' + '\0' + 'type zz q 3', "0")
            c.q("paramout " + n, same(fl))
        # missing or malformed fields
        for k in fl:
            pairs = [(a, b) for a, b in fl.items() if a != k]
            bad = lambda got: True if got.strip() not in ('', '0') else "accepted"
            parse(layout(rnd, pairs, rnd.randrange(2)), bad)
            parse(layout(rnd, pairs, 0) + k, bad)
            if k != 'type':
                for v in ('x', '12z', '--1', '1.5', '+', '0b2'):
                    parse(layout(rnd, pairs + [(k, v)], 0), bad)
            else:
                for v in ('z', 'A', 'aa', 'a2', 'd1', '1', 'type'):
                    if v not in ORDER:
                        parse(layout(rnd, pairs + [(k, v)], 0), bad)
        if 'exp2' in fl or 'm' in fl or 'k' in fl or 'l' in fl:
            k = [x for x in ('exp2', 'm', 'k', 'l') if x in fl][0]
            pairs = [(a, b) for a, b in fl.items() if a != k]
            parse(layout(rnd, pairs + [(k, str(1 << 40))], 0), bad)
            if k == 'k':
                for v in ('-6', '0', '2000000000', '8', '-2147483648'):
                    parse(layout(rnd, pairs + [(k, v)], 0), bad)
        # pairing initialisation reports the same
        parse(" ", bad)
        parse("#" * 40, bad)
        c.q("pairing Q " + hx("type " + ty), lambda g: True if g.strip() == '1' else "accepted")
        c.q("pairing Q " + hx(layout(rnd, list(fl.items())[:-1], 0)), lambda g: True if g.strip() == '1' else "accepted")
        out.append(c)
    # arbitrary bytes in a buffer of exactly their size
    for b in range(12 if not big else 60):
        c = Case("malformed text #%d" % b)
        for i in range(80):
            t = list(rnd.choice(sets).encode()) if rnd.random() < .8 else []
            for _ in range(rnd.randrange(1, 6)):
                r = rnd.random()
                if r < .3 and t:
                    del t[rnd.randrange(len(t)):]
                elif r < .5 and t:
                    t[rnd.randrange(len(t))] = rnd.choice([0, 10, 32, 35, 60, 47, 62, 127, 128, 255, 48])
                elif r < .7 and t:
                    k = rnd.randrange(len(t))
                    del t[k:k + rnd.randrange(20)]
                else:
                    k = rnd.randrange(len(t) + 1)
                    t[k:k] = [rnd.choice(b"abdegq0123 \n#</>-") for _ in range(rnd.choice([1, 2, 31, 32, 33, 63, 64, 65]))]
            if not t:
                t = [35]
            c.q("param m%d %s" % (i, bytes(t).hex()), lambda g: True if g.strip().lstrip('-').isdigit() else "no answer")
        out.append(c)
    # word lengths around the growth steps of the token buffer
    c = Case("token lengths")
    for n in list(range(28, 37)) + list(range(60, 69)) + [95, 96, 97, 128, 1000]:
        v = '1' * n
        for end in ('', '\n', '#'):
            c.q("param t%d%s " % (n, 'xyz'[len(end)]) + hx("type f q %s r 3 b 4 beta 5 alpha0 6 alpha1 %s%s" % (v, v, end if end != '#' else '')), "0")
            c.q("paramout t%d%s" % (n, 'xyz'[len(end)]), same(dict(type='f', q=v, r='3', b='4', beta='5', alpha0='6', alpha1=v)))
        c.q("param u%d " % n + hx("type f %s 3 q %s r 3 b 4 beta 5 alpha0 6 alpha1 8" % ('k' * n, v)), "0")
        c.q("paramout u%d" % n, same(dict(type='f', q=v, r='3', b='4', beta='5', alpha0='6', alpha1='8')))
    out.append(c)
    return out


# ------------------------------------------------------------------ C13

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def inbase(n, b):
    if n < 0:
        return '-' + inbase(-n, b)
    s = ''
    while True:
        n, r = divmod(n, b)
        s = DIG[r] + s
        if not n:
            return s


def text(v, base=10):
    if v is None:
        return 'O'
    if isinstance(v, (tuple, list)):
        return '[' + ', '.join(text(x, base) for x in v) + ']'
    return inbase(v, base)


def check_print(c, e, r, show, vals, setter, rnd, bases, parse=True, full=None):
    for v in vals:
        setter(v)
        t = text(v)
        n = len(t)
        sizes = sorted({0, 1, 2, 3, n // 2, n - 1, n, n + 1, n + 2, n + 7} | {rnd.randrange(n + 2) for _ in range(2)})
        if n < 24:
            sizes = range(n + 3)
        for k in sizes:
            w = (t[:k - 1].encode() + b'\0') if k else b''

            def ok(got, k=k, w=w, n=n):
                a = got.split()
                if int(a[0]) != n:
                    return "returned %s, full length %d" % (a[0], n)
                b = bytes.fromhex(a[1]) if a[1] != '-' else b''
                if b[:len(w)] != w:
                    return "text %r, expected %r" % (b[:60], w[:60])
                return True
            c.q("snprint %s %d" % (e, k), ok)
        for b in bases(v):
            tb = text(v, b or 10)
            c.q("outstr %s %d" % (e, b), "%d %s" % (len(tb), tb.encode().hex()))
            if parse:
                c("set1 " + r)
                c.q("setstr %s %d %s" % (r, b, hx(tb)), str(len(tb)))
                c.q("cmp %s %s" % (r, e), "0")
                if b <= 10 or True:
                    c.q("setstr %s %d %s" % (r, b, hx(tb + rnd.choice([';', '=', ']', '.']))), str(len(tb)))
                    c.q("cmp %s %s" % (r, e), "0")
                if b > 10:
                    c.q("setstr %s %d %s" % (r, b, hx(tb.upper())), str(len(tb)))
                    c.q("cmp %s %s" % (r, e), "0")


def fmts(c, e, v, rnd):
    t = text(v)
    for f, w in (("%B", t), ("a=%B", "a=" + t), ("%B;", t + ";"), ("%B%B", t + t), ("<%B,%B,%B>", "<%s,%s,%s>" % (t, t, t)), ("%%", "%"), ("100%%", "100%"),
                 ("%%%B%%", "%" + t + "%"), ("a%%b%%c", "a%b%c"), ("%B%%", t + "%"), ("plain", "plain"), ("", ""), ("%%B", "%B"), ("%%%%", "%%"), ("x%%%%%B", "x%%" + t)):
        n = len(w)
        c.q("ffmt %s %s" % (e, hx(f)) if f else "is1 " + e, "%d %s" % (n, w.encode().hex() or '-') if f else ANY)
        if f:
            for k in sorted({0, 1, n // 2, n, n + 1, n + 5, max(0, n - 1)}):
                ww = (w[:k - 1].encode() + b'\0') if k else b''

                def ok(got, ww=ww, n=n):
                    a = got.split()
                    if int(a[0]) != n:
                        return "returned %s, full length %d" % (a[0], n)
                    b = bytes.fromhex(a[1]) if a[1] != '-' else b''
                    return True if b[:len(ww)] == ww else "text %r, expected %r" % (b[:60], ww[:60])
                c.q("fmt %s %d %s" % (e, k, hx(f)), ok)
    c.q("eprintf " + e, "%d %s" % (len("a=%s;b=42;c=xy" % t), ("a=%s;b=42;c=xy" % t).encode().hex()))


def c13(rnd, big):
    out = []
    allb = [0] + list(range(2, 37))
    few = lambda v: [0, 2, 10, 16, 36] + rnd.sample(range(3, 36), 3)
    for S in field_zoo(rnd, big):
        c = Case("text " + desc(S))
        with_base(S)(c)
        c("el %s a r" % S.name)
        vals = zoo_vals(S, rnd, 2)
        check_print(c, 'a', 'r', S.show, vals, lambda v: S.set(c, 'a', v), rnd, (lambda v: allb) if isinstance(S, Fp) or big else few)
        fmts(c, 'a', vals[-1], rnd)
        out.append(c)
    for p in (5, 13, 103, 1009, next_prime(B64), prev_prime(1 << 160)):
        F = Fp(p, 'default')
        if p < 2000:
            E, pts = find_curve(p, rnd)
        else:
            E, pts = Curve(F, p - 3, 7, 1), []
            while len(pts) < 4:
                x = rnd.randrange(p)
                y2 = E.rhs(x)
                if F.is_sqr(y2):
                    pts.append((x, sqrt_fp(y2, p)))
        c = Case("text E(F_%d)" % p)
        with_base(E)(c)
        c("el E a r")
        vals = [None] + rnd.sample(pts, min(5, len(pts)))
        check_print(c, 'a', 'r', E.show, vals, lambda v: E.set(c, 'a', v), rnd, few)
        fmts(c, 'a', vals[-1], rnd)
        # what is not a point is not read as one
        P_ = next((v for v in vals if v), None)
        for bad in ("", "[", "[1", "[1;2]", "[1 2]", "x", "(1, 2)", "]") + (("[%d, %d" % P_, "[%d %d]" % P_, "%d, %d]" % P_, "[%d, %d;" % P_, "[%d, %d]" % (P_[0], (P_[1] + 1) % p if (2 * P_[1] + 1) % p else (P_[1] + 2) % p)) if P_ else ()):
            c.q("setstr r 10 %s" % hx(bad), "0")
            c.q("is0 r", ANY)
        out.append(c)
    # polynomials print only
    for p in (5, 101, next_prime(B64)):
        c = Case("text of polynomials over F_%d" % p)
        c("fp F default %d" % p, "poly X F", "el X a r", "el F k")
        for v in ([], [1], [0, 1], [rnd.randrange(p) for _ in range(4)] + [1], [0, 0, 0, 2]):
            def setter(v):
                c("set0 a")
                for i, x in enumerate(v):
                    c("setz k %d" % x, "polyset a k %d" % i)
            check_print(c, 'a', 'r', None, [v], setter, rnd, few, parse=False)
        out.append(c)
    # integers
    for fld in ('z', 'multizfield'):
        c = Case("text of integers (%s)" % fld)
        c(fld + " Z", "el Z a r")
        vals = [0, 1, -1, 9, 10, -10, 255, -256, (1 << 64) - 1, 1 << 64, -(1 << 64), rnd.getrandbits(200), -rnd.getrandbits(300)]
        check_print(c, 'a', 'r', None, vals, lambda v: c("setz a %d" % v), rnd, lambda v: allb)
        fmts(c, 'a', -77, rnd) if False else None
        out.append(c)
    # groups of a pairing print as the points and field elements they are
    for t in params.listed(params.D)[:1] + params.listed(params.F_)[:1] + [params.type_a(6)[1][3]]:
        for g in ('G1', 'G2', 'GT', 'Zr'):
            c = Case("text %s of %s" % (g, t[:40].replace('\n', ' ')))
            c("seed %d" % rnd.randrange(1 << 30)).q("pairing P " + hx(t), "0")
            c("pel P %s a r" % g)
            for _ in range(4):
                c("random a")
                box = {}

                def keep(got, box=box):
                    box['n'] = got.split()[0]
                    box['t'] = got.split()[1]
                    return True if len(box['t']) // 2 == int(box['n']) else "reports %s bytes, wrote %d" % (box['n'], len(box['t']) // 2)
                c.q("outstr a 10", keep)
                c.q("snprint a 400", lambda got, box=box: True if got.split()[0] == box['n'] and got.split()[1].startswith(box['t'] + '00') else "differs from the stream output")
                c.q("rtstr r a 10", lambda got, box=box: True if got.strip() == box['n'] else "consumed %s" % got)
                c.q("cmp r a", "0")
                c.q("rtstr r a 16", ANY)
                c.q("cmp r a", "0")
            out.append(c)
    return out
