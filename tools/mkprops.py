import json
def P(id,title,st,over,q,why,files,mech):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
L=[
P('C01','Prime-field arithmetic is exact in every representation',
 'For every odd prime modulus and every operand, each of the interchangeable prime-field implementations returns from addition, subtraction, negation, doubling, halving, multiplication, squaring, inversion, division and scalar multiplication exactly the residue that integer arithmetic modulo the prime gives, whichever arguments are the same object. Equality, zero and one tests agree with equality of residues however the element was computed. Operands that are not the result are left unchanged.',
 ['inputs','configurations'],'all odd primes (the multi-limb implementations: moduli of at least two machine words), all operand residues, all argument aliasings, all four implementations',
 'Tests use a few primes and random operands; lost carries, missed final subtractions and stale representations need specific limbs (a modulus with a full top word, say) that random sampling practically never hits.',
 ['arith/fp.c','arith/naivefp.c','arith/fastfp.c','arith/fasterfp.c','arith/montfp.c','arith/field.c'],
 [('Montgomery form, flag for zero','arith/montfp.c'),('limb vectors with zero flag','arith/fasterfp.c'),('limb vectors','arith/fastfp.c'),('mpz residues','arith/naivefp.c'),('generic defaults','arith/field.c')]),
P('C02','Quadratic extension arithmetic is exact',
 'For every base field and quadratic nonresidue, and for the variant adjoining a square root of minus one, arithmetic on pairs returns the coordinates of the exact sum, difference, product, square, negative, half, inverse, quotient or multiple in the extension, whichever arguments are the same object. Equality, zero and one tests agree with the coordinates, and operands that are not the result are left unchanged.',
 ['inputs','configurations'],'all base fields of characteristic above 3, all nonresidues, all operand pairs, all aliasings',
 'Tests sample random pairs over one or two primes; aliasing and zero coordinates are hardly exercised.',
 ['arith/fieldquadratic.c'],[('Karatsuba product, fast square, norm inversion','arith/fieldquadratic.c')]),
P('C03','Polynomial rings and polynomial extension fields compute exactly',
 'Sums, differences, products, scalings and comparisons of polynomials are exact and results never carry a zero leading coefficient, so the reported degree is the true degree. In the extension defined by a monic irreducible polynomial, every operation including inversion and division returns the reduced residue of the exact result, for every extension degree and every aliasing of arguments. The irreducibility test and root finder answer correctly for every monic polynomial.',
 ['inputs','configurations'],'all base fields, all polynomials and degrees, all monic irreducible moduli, all aliasings',
 'Tests run one degree-6 or degree-12 extension on random elements; special-cased degrees, cancellation of leading terms and zero operands are not sampled.',
 ['arith/poly.c'],[('coefficient arrays without leading zeroes','arith/poly.c'),('precomputed x^n..x^(2n-2) and Karatsuba for degrees 2,3,6','arith/poly.c'),('extended Euclid inversion','arith/poly.c')]),
P('C04','Curve arithmetic is the elliptic-curve group law',
 'For every curve in short Weierstrass form over a field of characteristic above 3, adding, subtracting, doubling and negating points gives the chord-and-tangent result including all exceptional cases (the identity, equal points, opposite points, points of order two), whichever arguments are the same object. Batched addition and doubling give entry by entry what the single operations give. Two points compare equal exactly when they are the same point.',
 ['inputs','configurations'],'all base fields, curve coefficients, points, batch contents, aliasings',
 'Random points never hit exceptional cases; tests never mix them in one batch.',
 ['ecc/curve.c'],[('affine formulas with a flag for the identity','ecc/curve.c'),('simultaneous inversion in batches','ecc/curve.c')]),
P('C05','Exponentiation agrees with repeated multiplication for every exponent',
 'Raising an element of any field or group to an integer or modular exponent, computing a product of two or three powers at once, exponentiating through a precomputed table, and taking an integer multiple in a group written additively all return what repeated application of the group operation returns, for every base (including zero and the identity) and every non-negative exponent including zero and those larger than the group order. The exponent and the bases are left unchanged.',
 ['inputs','configurations'],'all exponents of any size, all bases, all algorithms (sliding window, simultaneous, precomputed tables) and result/base aliasing',
 'Tests try random exponents of one size; window boundaries, runs of zero bits, tiny exponents and unequal exponent lengths are where the algorithms differ.',
 ['arith/field.c','arith/fieldquadratic.c','arith/poly.c','include/pbc_field.h'],[('sliding window','arith/field.c generic_pow_mpz'),('simultaneous powers','arith/field.c element_pow2_mpz, element_pow3_mpz'),('fixed-base tables','arith/field.c element_pp_*')]),
P('C06','Square roots and squareness tests are correct',
 'An element tests as a square exactly when it is the square of some element of its field, zero included. The square root of a square, when squared, gives back the element, in prime fields, quadratic extensions and polynomial extensions alike and whether or not the root lies in a subfield; the result may be the same object as the operand.',
 ['inputs','configurations'],'all fields of odd characteristic the library builds, all elements',
 'Tests square random elements and take roots; elements of subfields, zero and moduli with unusual 2-adic structure are not covered.',
 ['arith/field.c','arith/fieldquadratic.c','arith/poly.c','arith/montfp.c','arith/fasterfp.c','arith/fastfp.c','arith/naivefp.c'],[('Tonelli-Shanks','arith/field.c element_tonelli'),('norm method','arith/fieldquadratic.c'),('equal-degree splitting','arith/poly.c')]),
P('C07','Field elements survive conversion to bytes and integers',
 'Encoding a field element writes exactly the announced number of bytes, equal elements have equal encodings, and decoding returns the element and the number of bytes consumed. Decoding arbitrary bytes always yields a valid element that behaves like any other element of the same value. Conversion to an integer gives the canonical residue, and setting from any integer, negative or oversized, reduces it modulo the order.',
 ['inputs','configurations'],'all elements, all byte strings, all integers, all field constructions',
 'Tests round-trip random elements only; byte strings encoding values at or above the modulus, short values with leading zero bytes and the zero element are not reached.',
 ['arith/montfp.c','arith/fasterfp.c','arith/fastfp.c','arith/naivefp.c','arith/fieldquadratic.c','arith/poly.c','arith/field.c'],[('to_bytes/from_bytes/to_mpz/set_mpz slots','arith/*.c'),('fixed-length big-endian output','arith/field.c pbc_mpz_out_raw_n')]),
P('C08','Point encodings round-trip and never produce off-curve points',
 'Every point, the identity included, is restored by decoding its full encoding, and every finite point is restored by its compressed encoding; an x-only encoding restores the point up to sign. Decoding any byte string into a full encoding yields a point that satisfies the curve equation or the identity. Setting a point from a hash or at random always gives a point of the intended subgroup.',
 ['inputs','configurations'],'all curves, all points, all byte strings, all hash inputs',
 'Tests round-trip random points; hostile byte strings, the identity and sign ties are not exercised.',
 ['ecc/curve.c'],[('curve_to_bytes/curve_from_bytes and on-curve check','ecc/curve.c'),('compressed and x-only forms','ecc/curve.c'),('cofactor clearing','ecc/curve.c')]),
P('C09','Symmetric pairings are bilinear, symmetric and nondegenerate',
 'For every valid parameter set of the supersingular families with embedding degree two, the pairing of any two points is an element of the target group of the stated order, raising either argument to a multiple raises the value to the same power, exchanging arguments changes nothing, and two generators never pair to one. Every selectable evaluation method computes the same value.',
 ['inputs','configurations'],'all valid type A and A1 parameter sets, all points of the groups, all evaluation methods',
 'Tests check bilinearity for one fixed parameter file and random points; other bit patterns of the group order and exceptional points of the evaluation loop are not reached.',
 ['ecc/a_param.c','ecc/pairing.c'],[('Miller loops (Solinas order, generic order), projective and affine','ecc/a_param.c'),('Lucas-sequence final power','ecc/a_param.c')]),
P('C10','Ordinary-curve pairings are bilinear and nondegenerate',
 'For every valid parameter set of the ordinary-curve families (embedding degrees 1, 6, 10 and 12), the pairing of a point of the first group with a point of the second is an element of the target group of the stated order, and multiplying either argument by an integer raises the value to that power; generators never pair to one. Every selectable evaluation method computes the same value.',
 ['inputs','configurations'],'all valid type D, E, F and G parameter sets, all points of the groups, all evaluation methods',
 'Tests use a few parameter files and random points with the default method.',
 ['ecc/d_param.c','ecc/e_param.c','ecc/f_param.c','ecc/g_param.c'],[('Miller loops without denominators','ecc/d_param.c, ecc/g_param.c, ecc/f_param.c'),('shifted evaluation','ecc/e_param.c'),('Frobenius and Lucas final powers','ecc/d_param.c, ecc/f_param.c, ecc/g_param.c')]),
P('C11','Pairing shortcuts agree with the plain pairing',
 'Pairing with the identity on either side gives one. The product of several pairings computed in one call equals the product of the separate values, and a pairing evaluated from preprocessed data equals the direct one, for every list of points including ones containing the identity and for every pairing family; preprocessing may be reused any number of times. The almost-co-Diffie-Hellman test answers yes exactly when the two ratios agree up to sign.',
 ['inputs','configurations','histories'],'all pairing families, all point lists, all reuse histories of preprocessed data',
 'Tests compare shortcuts on random points only; identities inside lists and reuse are not covered.',
 ['include/pbc_pairing.h','ecc/pairing.c','ecc/a_param.c','ecc/d_param.c','ecc/e_param.c','ecc/f_param.c','ecc/g_param.c'],[('identity shortcuts','include/pbc_pairing.h'),('per-family product and preprocessing routines','ecc/*_param.c'),('default fallbacks','ecc/pairing.c')]),
P('C12','Parameter text is parsed exactly or rejected',
 'Writing parameters as text and reading them back gives the same parameters, regardless of the order of lines, comments, extra white space or whether the text is terminated by its length or by a zero byte. Text with an unknown type, a missing field or a field that is not a number is rejected with a nonzero return, and no text, however malformed, makes the parser read outside the given buffer.',
 ['inputs'],'all byte strings offered as parameters',
 'Tests parse well-formed files only.',
 ['ecc/param.c','ecc/a_param.c','ecc/d_param.c','ecc/e_param.c','ecc/f_param.c','ecc/g_param.c','ecc/pairing.c'],[('tokenizer over a bounded buffer and symbol table','ecc/param.c'),('lookup of required keys','ecc/param.c')]),
P('C13','Element text output and input agree',
 'Printing an element and parsing the text in the same base restores the element and consumes exactly the printed characters, for prime fields, their quadratic and polynomial extensions, integers and curve groups and every base from 2 to 36. Bounded printing never writes beyond the given size, always terminates the text, and returns the length of the full text; the stream and buffer printers report exactly the bytes they write.',
 ['inputs','configurations'],'all elements, bases, buffer sizes and input strings',
 'Tests print a few values into large buffers.',
 ['arith/montfp.c','arith/fieldquadratic.c','arith/poly.c','ecc/curve.c','arith/field.c','misc/extend_printf.c','include/pbc_field.h'],[('snprint/set_str slots','arith/*.c, ecc/curve.c'),('format expansion','misc/extend_printf.c')]),
P('C14','Hashing is deterministic and random values stay in range',
 'Mapping the same bytes to an element always gives the same element, for every field and group that supports hashing, and the integer obtained by hashing below a limit is always below that limit and depends on every byte of the hash that fits; hashing spreads over the whole target and does not collapse to one element. Random elements and random integers are always valid members of their field or range, and with the deterministic generator the same seed reproduces the same sequence.',
 ['inputs','configurations','histories'],'all hash strings, limits, fields, seeds and call sequences',
 'Tests do not check ranges or repeatability.',
 ['arith/field.c','arith/random.c','arith/montfp.c','arith/naivefp.c','ecc/curve.c'],[('counter-mode expansion','arith/field.c pbc_mpz_from_hash'),('random back ends','arith/random.c')]),
P('C15','Integers and nested integer lists behave as their mathematics',
 'Elements of the ring of integers add, subtract, multiply, compare, convert and print as the integers they stand for, with division exact when defined and powers by any non-negative exponent. Nested lists of integers are added, subtracted, negated and scaled entry by entry, multiplied as polynomials in their entries, and copying a list never shares its parts with the original.',
 ['inputs','histories'],'all integers of any size and sign, all list shapes',
 'Tests touch a few small values.',
 ['arith/z.c','arith/multiz.c'],[('mpz-backed ring','arith/z.c'),('recursive lists','arith/multiz.c')]),
P('C16','Characteristic-three fields and their pairing compute exactly',
 'In the ternary extension field defined by an irreducible trinomial, and in its quadratic and cubic extensions, sums, differences, products, cubes, inverses and powers are the exact reduced results for every element and aliasing. The pairing on the supersingular ternary curve is bilinear, of the stated order, and nondegenerate, for every degree prime to six.',
 ['inputs','configurations'],'all elements, extension degrees and trinomials, all aliasings, all points of the subgroup',
 'Tests use one degree and random elements.',
 ['arith/ternary_extension_field.c','ecc/eta_T_3.c'],[('bit-sliced trit vectors','arith/ternary_extension_field.c'),('eta_T loop and final power','ecc/eta_T_3.c')]),
P('C17','Curve orders and generated parameters satisfy their defining equations',
 'The trace and order of a curve over an extension field are the exact values given by the trace over the base field, for every degree. Every generated parameter set satisfies the equations of its family: stated primes are prime, the group order divides the curve order, the embedding degree is right (for orders larger than it), and a pairing initialised from it works.',
 ['inputs','configurations'],'all traces, field sizes and degrees; all discriminants and sizes requested from the generators',
 'Tests generate at most one parameter set per family.',
 ['ecc/curve.c','ecc/a_param.c','ecc/d_param.c','ecc/e_param.c','ecc/f_param.c','ecc/g_param.c','ecc/mnt.c','ecc/hilbert.c','ecc/mpc.c'],[('trace recurrence','ecc/curve.c pbc_mpz_trace_n'),('Pell equation search','ecc/mnt.c'),('class polynomials','ecc/hilbert.c')]),
P('C18','Containers behave as sequences and maps',
 'A dynamic array holds exactly the sequence that the operations performed on it describe, in order, for every sequence of appends, removals, filters, copies and searches. A symbol table maps each name to the value last stored under it and reports names never stored as absent; prefix-related and empty names are distinct names.',
 ['histories','inputs'],'all operation sequences of any length',
 'No test exercises removal, filtering or copying.',
 ['misc/darray.c','misc/symtab.c'],[('growable pointer array','misc/darray.c'),('linear-search table','misc/symtab.c')]),
P('C19','Discrete logarithms found are discrete logarithms',
 'Whenever a discrete logarithm routine returns for a group of prime order, the returned exponent raises the base to exactly the given target, for every base that generates the group and every target in it, the identity included.',
 ['inputs','configurations'],'all prime-order groups, generators and targets',
 'Tests try one or two random targets.',
 ['arith/dlog.c'],[('brute force and Pollard rho','arith/dlog.c')]),
P('C20','Operations release what they allocate and stay inside their memory',
 'Every arithmetic, comparison, conversion and pairing call frees all temporary storage it obtained, on every path including early exits, neither reads nor writes outside the objects it is given, and never frees storage it does not own. After clearing the elements and the field or pairing they belong to, nothing allocated on their behalf remains.',
 ['inputs','histories'],'all calls, all operand values and aliasings',
 'Tests do not observe the allocator; leaks on rare branches are invisible to them.',
 ['arith/field.c','arith/naivefp.c','arith/fastfp.c','arith/fasterfp.c','arith/montfp.c','arith/fieldquadratic.c','arith/poly.c','ecc/curve.c','ecc/pairing.c','misc/memory.c'],[('init/clear pairs','all'),('replaceable allocator','misc/memory.c')]),
]
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L))
for x in L: assert len(x['title'])<=80,x['id']; assert x['statement'].count('. ')<=2,(x['id'])
print(len(L))
