"""Small parameter sets for the pairing conformance runs, each checked here from its defining equations."""
from .oracle import is_prime


def type_a(maxbits=12):
    """every type A set with a small Solinas order: q = h r - 1, q = 3 mod 4"""
    out = []
    for e2 in range(2, maxbits):
        for e1 in range(1, e2):
            for s1 in (1, -1):
                for s0 in (1, -1):
                    r = (1 << e2) + s1 * (1 << e1) + s0
                    if r < 5 or not is_prime(r) or pow(2, e1 + 1, r) in (1, r - 1):
                        continue
                    h = 4
                    while not (is_prime(h * r - 1) and h % r):
                        h += 4
                    out.append((r, h * r - 1, h, "type a\nq %d\nh %d\nr %d\nexp2 %d\nexp1 %d\nsign1 %d\nsign0 %d\n" % (h * r - 1, h, r, e2, e1, s1, s0)))
    return out


def type_a1(ns):
    out = []
    for n in ns:
        l = 4
        while not is_prime(l * n - 1):
            l += 4
        out.append((n, l * n - 1, l, "type a1\np %d\nn %d\nl %d\n" % (l * n - 1, n, l)))
    return out


D = """type d|q 17|n 13|h 1|r 13|a 10|b 1|k 6|nk 24130496|hk 142784|coeff0 2|coeff1 7|coeff2 13|nqr 11|
type d|q 37|n 31|h 1|r 31|a 22|b 27|k 6|nk 2565639360|hk 2669760|coeff0 19|coeff1 17|coeff2 6|nqr 17|
type d|q 4357|n 4423|h 1|r 4423|a 2744|b 2812|k 6|nk 6841090876630157142336|hk 349696657214784|coeff0 768|coeff1 3191|coeff2 2680|nqr 3647|
type d|q 8122501|n 8119651|h 1|r 8119651|a 7837383|b 5224922|k 6|nk 287169717476489891249164041822508785720000|hk 4355759730075980608089720000|coeff0 2537008|coeff1 3110565|coeff2 3618849|nqr 424150|
type d|q 37|n 43|h 1|r 43|a 11|b 4|k 6|nk 2565642816|hk 1387584|coeff0 8|coeff1 21|coeff2 33|nqr 23|
type d|q 197|n 211|h 1|r 211|a 14|b 134|k 6|nk 58451713503680|hk 1312902080|coeff0 50|coeff1 150|coeff2 137|nqr 38|
type d|q 257|n 241|h 1|r 241|a 59|b 49|k 6|nk 288136774323200|hk 4960947200|coeff0 75|coeff1 74|coeff2 190|nqr 56|
type d|q 197|n 183|h 3|r 61|a 140|b 159|k 6|nk 58451713459776|hk 15708603456|coeff0 73|coeff1 137|coeff2 43|nqr 141|
type d|q 577|n 553|h 7|r 79|a 8|b 390|k 6|nk 36902422298278656|hk 5912902146816|coeff0 199|coeff1 237|coeff2 492|nqr 440|"""
G = """type g|q 283|n 251|h 1|r 251|a 170|b 19|nk 3295067800664501275179007|hk 52301833314780738007|coeff0 282|coeff1 123|coeff2 273|coeff3 61|coeff4 183|nqr 219|
type g|q 8443|n 8261|h 11|r 751|a 2979|b 1986|nk 1840635918747630433569010157734276062607|hk 3263533076621549312091663237714607|coeff0 498|coeff1 3028|coeff2 5064|coeff3 4429|coeff4 4775|nqr 5489|
type g|q 1747363|n 1744721|h 11|r 158611|a 1695857|b 1433683|nk 265357492035241212088007061001672856989476349477940372228907607|hk 10547869485867788388419151254927528787109520079551167|coeff0 421683|coeff1 290067|coeff2 77763|coeff3 886377|coeff4 1034113|nqr 787709|"""
E_ = """type e|q 1840616832632711473|r 786433|h 2976048|a 0|b 1|exp2 19|exp1 18|sign1 1|sign0 1|
type e|q 246321781979219616494161143385905768301|r 1099511562239|h 203752626792300|a 0|b 1|exp2 40|exp1 16|sign1 -1|sign0 -1|"""
F_ = """type f|q 373|r 349|b 92|beta 359|alpha0 140|alpha1 176|
type f|q 1706311|r 1704961|b 1551343|beta 1413150|alpha0 1516230|alpha1 497133|
type f|q 157661606503|r 157661210209|b 129108354042|beta 133200320864|alpha0 59418188598|alpha1 90010283270|"""


def fields(t):
    return dict(l.split(None, 1) for l in t.replace('|', '\n').splitlines() if l.strip())


def listed(s):
    return [l.replace('|', '\n') for l in s.splitlines()]


def full(name):
    """the full-size parameters published with the library"""
    import os
    return open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', name + '.param')).read()
