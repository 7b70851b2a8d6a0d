"""Which units and conformance scripts decide which property."""
import os

TRUSTED = ["vcg (this LLVM-IR verification-condition generator)", "clang 18 front end (-O0 IR of the sources in /repo)", "z3", "sympy Groebner bases",
           "libc allocation and string functions as contracted in vcg/gmp.py"]
COMMON_ASSUMPTIONS = ["GMP functions satisfy the contracts written in vcg/gmp.py", "malloc never returns NULL", "single thread"]

REG = {
    'C01': dict(level='proof', units=[('u_fp', 'FpUnit', {'impl': 'naive'}, 3), ('u_fp', 'MontKernelUnit', {'t': 2}, 2),
                                      ('u_fp', 'FpRepUnit', {'impl': 'mont', 't': 2}, 8),
                                      ('u_fp', 'FpRepUnit', {'impl': 'fast', 't': 2}, 3), ('u_fp', 'FpRepUnit', {'impl': 'faster', 't': 2}, 3),
                                      ('u_fp', 'FpUnit', {'impl': 'fast', 't': 2}, 3), ('u_fp', 'FpUnit', {'impl': 'faster', 't': 2}, 3)],
                deep=[('u_fp', 'FpRepUnit', {'impl': 'fast', 't': 3}, 4), ('u_fp', 'FpRepUnit', {'impl': 'faster', 't': 3}, 4),
                      ('u_fp', 'FpRepUnit', {'impl': 'mont', 't': 3}, 8), ('u_fp', 'MontKernelUnit', {'t': 3}, 4)],
                conf=['conf_arith.c01']),
    'C02': dict(level='proof', units=[('u_quad', 'QuadUnit', {'kind': 'fq'}), ('u_quad', 'QuadUnit', {'kind': 'fi'})], conf=['conf_arith.c02']),
    'C03': dict(level='proof', units=[('u_ext', 'PolymodUnit', {'n': n}) for n in (1, 2, 3)] +
                                     [('u_ext', 'PolymodUnit', {'n': n, 'inv': False}) for n in (4, 5, 6, 7)] + [('u_poly', 'PolyRingUnit', {})], conf=['conf_arith.c03']),
    'C04': dict(level='proof', units=[('u_curve', 'CurveUnit', {}, 2), ('u_curve', 'CurveMultiUnit', {}, 2)], conf=['conf_arith.c04']),
    'C05': dict(level='proof', units=[('u_pow', 'PowUnit', {'maxk': 8}, 4)], conf=['conf_elem.c05']),
    'C06': dict(level='proof', units=[('u_sqr', 'FpSqrUnit', {'impl': 'naive'}), ('u_sqr', 'FpSqrUnit', {'impl': 'fast'}), ('u_sqr', 'FpSqrUnit', {'impl': 'faster'}),
                                      ('u_sqr', 'FpRepSqrUnit', {'impl': 'mont'}), ('u_sqr', 'QuadSqrtUnit', {'kind': 'fq'}),
                                      ('u_sqr', 'QuadSqrtUnit', {'kind': 'fi'}), ('u_sqr', 'TonelliUnit', {})],
                conf=['conf_elem.c06']),
    'C07': dict(level='proof', units=[('u_enc', 'FpEncUnit', {'impl': 'naive'}), ('u_enc', 'FpRepEncUnit', {'impl': 'fast'}), ('u_enc', 'FpRepEncUnit', {'impl': 'faster'}),
                                      ('u_enc', 'FpRepEncUnit', {'impl': 'mont'}, 6), ('u_enc', 'QuadEnc', {'kind': 'fq'}), ('u_enc', 'QuadEnc', {'kind': 'fi'}),
                                      ('u_enc', 'QuadEnc', {'kind': 'fq', 'fixed': False}), ('u_enc', 'QuadEnc', {'kind': 'fi', 'fixed': False})] +
                                     [('u_enc', 'PolymodEnc', {'n': n, 'fixed': f}) for n in (1, 2, 3, 6) for f in (True, False)] + [('u_poly', 'PolyRingEnc', {'fixed': f}) for f in (True, False)], conf=['conf_elem.c07']),
    'C08': dict(level='proof', units=[('u_enc', 'CurveEnc', {}), ('u_enc', 'QuadEnc', {'kind': 'fq'}), ('u_enc', 'QuadEnc', {'kind': 'fi'}), ('u_enc', 'PolymodEnc', {'n': 3})], conf=['conf_elem.c08']),
    'C09': dict(level='proof', units=[('u_miller', 'AUnit', {'skip': ['product']}), ('u_miller', 'A1Unit', {'skip': ['product']}), ('u_miller', 'EUnit', {}),
                                      ('u_tate', 'LucasUnit', {'only': ['type a']}), ('u_tate', 'TateUnit', {'only': ['type a']}), ('u_tate', 'JoinUnit', {'only': ['type e', 'type a']})], conf=['conf_pair.c09']),
    'C10': dict(level='proof', units=[('u_miller', 'DUnit', {'skip': ['product']}), ('u_miller', 'GUnit', {}), ('u_miller', 'FUnit', {}),
                                      ('u_tate', 'LucasUnit', {'only': ['type d', 'type g']}), ('u_tate', 'TateUnit', {'only': ['type d', 'type g', 'type f']}),
                                      ('u_tate', 'JoinUnit', {'only': ['pairing of type', 'final power'], 'skip': ['type e', 'type a']})], conf=['conf_pair.c10']),
    'C11': dict(level='proof', units=[('u_pair', 'PairUnit', {}), ('u_miller', 'AUnit', {'only': ['product']}), ('u_miller', 'A1Unit', {'only': ['product']}), ('u_miller', 'DUnit', {'only': ['product']}),
                                      ('u_tate', 'JoinUnit', {'only': ['product', 'coddh']}),
                                      ('u_pp', 'PPAUnit', {}), ('u_pp', 'PPA1Unit', {}), ('u_pp', 'PPTwistUnit', {'kind': 'd'}), ('u_pp', 'PPTwistUnit', {'kind': 'g'})], conf=['conf_pair.c11']),
    'C12': dict(level='proof', units=[('u_text', 'TokenUnit', {}), ('u_text', 'TableUnit', {}), ('u_text', 'LookupUnit', {}), ('u_text', 'FamilyUnit', {}), ('u_text', 'DispatchUnit', {})], conf=['conf_text.c12']),
    'C13': dict(level='proof', units=[('u_print', 'QuadText', {'kind': 'fq'}), ('u_print', 'QuadText', {'kind': 'fi'})] + [('u_print', 'PolymodText', {'n': n}) for n in (1, 2, 3, 5, 6)] +
                                     [('u_print', 'CurveText', {}), ('u_print', 'NumeralUnit', {}), ('u_print', 'FpTextUnit', {'impl': 'naive'}),
                                      ('u_print', 'FpRepTextUnit', {'impl': 'fast'}), ('u_print', 'FpRepTextUnit', {'impl': 'faster'}), ('u_print', 'FpRepTextUnit', {'impl': 'mont'}, 4),
                                      ('u_print', 'ZText', {}), ('u_print', 'ZText', {'init': 'multiz'}), ('u_print', 'ListText', {}), ('u_print', 'FormatUnit', {}), ('u_poly', 'PolyRingText', {})], conf=['conf_text.c13']),
    'C14': dict(level='proof', units=[('u_hash', 'HashUnit', {}), ('u_hash', 'FpHashUnit', {'impl': 'naive'}), ('u_hash', 'FpRepHashUnit', {'impl': 'fast'}),
                                      ('u_hash', 'FpRepHashUnit', {'impl': 'faster'}), ('u_hash', 'FpRepHashUnit', {'impl': 'mont'}, 2),
                                      ('u_hash', 'QuadHash', {'kind': 'fq'}), ('u_hash', 'QuadHash', {'kind': 'fi'})] +
                                     [('u_hash', 'PolymodHash', {'n': n}) for n in (1, 2, 3, 5, 6)] + [('u_enc', 'CurveEnc', {})], conf=['conf_misc.c14']),
    'C15': dict(level='proof', units=[('u_z', 'ZUnit', {}), ('u_z', 'MultizUnit', {}, 2)], conf=['conf_misc.c15']),
    'C16': dict(level='proof', units=[('u_ext', 'TernUnit', {'kind': 2}), ('u_ext', 'TernUnit', {'kind': 3}),
                                      ('u_gf3m', 'Gf3Unit', {'m': 5, 't': 4}, 3), ('u_gf3m', 'Gf3Unit', {'m': 7, 't': 2, 'heavy': 'noinv'}, 4),
                                      ('u_gf3m', 'Gf3Unit', {'m': 64, 't': 3, 'heavy': False}), ('u_gf3m', 'Gf3Unit', {'m': 97, 't': 12, 'heavy': False}, 2)],
                deep=[('u_gf3m', 'Gf3Unit', {'m': 7, 't': 2}, 6), ('u_gf3m', 'Gf3Unit', {'m': 9, 't': 4, 'heavy': 'noinv'}, 6)], conf=['conf_misc.c16']),
    'C17': dict(level='proof', units=[('u_gen', 'GenUnit', {}, 2), ('u_cm', 'CmUnit', {}), ('u_cm', 'PellUnit', {})], conf=['conf_misc.c17']),
    'C18': dict(level='proof', units=[('u_cont', 'DarrayUnit', {}), ('u_cont', 'SymtabUnit', {})], conf=['conf_misc.c18']),
    'C19': dict(level='proof', units=[('u_log', 'LogUnit', {})], conf=['conf_misc.c19']),
    'C20': dict(level='proof', units=[('u_cont', 'DarrayUnit', {}), ('u_cont', 'SymtabUnit', {}), ('u_fp', 'FpRepUnit', {'impl': 'mont', 't': 2, 'leak': True}, 8), ('u_fp', 'FpUnit', {'impl': 'fast', 't': 2, 'leak': True}, 3),
                                      ('u_fp', 'FpUnit', {'impl': 'naive', 'leak': True}), ('u_quad', 'QuadUnit', {'kind': 'fq', 'leak': True}),
                                      ('u_quad', 'QuadUnit', {'kind': 'fi', 'leak': True}), ('u_ext', 'PolymodUnit', {'n': 3, 'leak': True}),
                                      ('u_ext', 'PolymodUnit', {'n': 5, 'inv': False, 'leak': True}),
                                      ('u_ext', 'TernUnit', {'kind': 2, 'leak': True}), ('u_ext', 'TernUnit', {'kind': 3, 'leak': True}),
                                      ('u_gf3m', 'Gf3Unit', {'m': 5, 't': 4, 'leak': True}, 2), ('u_curve', 'CurveUnit', {'leak': True}),
                                      ('u_curve', 'CurveMultiUnit', {'leak': True}), ('u_pow', 'PowUnit', {'maxk': 3, 'leak': True}, 2),
                                      ('u_enc', 'CurveEnc', {'leak': True}), ('u_enc', 'QuadEnc', {'kind': 'fq', 'leak': True}), ('u_enc', 'PolymodEnc', {'n': 3, 'leak': True}), ('u_z', 'ZUnit', {'leak': True}), ('u_z', 'MultizUnit', {'leak': True}), ('u_miller', 'AUnit', {'leak': True}), ('u_miller', 'A1Unit', {'leak': True}), ('u_miller', 'DUnit', {'leak': True}), ('u_miller', 'GUnit', {'leak': True}), ('u_miller', 'FUnit', {'leak': True}), ('u_miller', 'EUnit', {'leak': True}), ('u_tate', 'LucasUnit', {'leak': True}), ('u_tate', 'TateUnit', {'leak': True}), ('u_tate', 'JoinUnit', {'leak': True}), ('u_gen', 'GenUnit', {'leak': True}), ('u_text', 'TokenUnit', {'leak': True}), ('u_text', 'TableUnit', {'leak': True}), ('u_text', 'LookupUnit', {'leak': True}), ('u_text', 'FamilyUnit', {'leak': True}), ('u_text', 'DispatchUnit', {'leak': True}), ('u_cm', 'PellUnit', {'leak': True}), ('u_cm', 'CmUnit', {'leak': True}), ('u_pair', 'PairUnit', {'leak': True}), ('u_poly', 'PolyRingUnit', {'leak': True}), ('u_pp', 'PPAUnit', {'leak': True}), ('u_pp', 'PPA1Unit', {'leak': True}), ('u_pp', 'PPTwistUnit', {'kind': 'd', 'leak': True}), ('u_pp', 'PPTwistUnit', {'kind': 'g', 'leak': True})],
                deep=[('u_fp', 'FpUnit', {'impl': 'faster', 't': 2, 'leak': True}, 6)], conf=['conf_misc.c20', 'conf_misc.c18']),
}


def known(here, pid):
    """findings that are recorded, not repaired: lines 'finding: property=<id> match=<text> :: what'"""
    out = []
    p = os.path.join(here, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:') and ('property=%s ' % pid) in l:
                head, what = l.split(' :: ', 1)
                out.append(dict(match=head.split('match=', 1)[1].strip(), what=what.strip()))
    return out

TECH = "contract-based deductive verification: modular VC generation over the LLVM IR of the real source, discharged by algebraic normal forms/Groebner bases and z3"
NOTE = "Obligations are discharged for all operand values on IR recompiled from /repo on every run; GMP, libc and field-slot contracts are assumed; bounded conformance runs on the real binary supply failing inputs and stand in for anything undecided."
TECH_B = "bounded conformance of the real library against independently computed results (stand-in while no deductive unit covers the property)"
NOTE_B = "Bounded: every operation is exercised on the stated finite families of inputs under ASan/UBSan and compared with an independent oracle; nothing is proved for other inputs."
NA = {}
