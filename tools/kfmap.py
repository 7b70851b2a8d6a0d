m['exponentiation by table']='C05'
m['type G search']='C17'
m['projective Miller']='C10'
m['poly_findroot wrote']='C03'
m['default pairing preproc']='C11'
m['pairing preprocessing of types D']='C11'
m['almost-co-Diffie']='C11'
m['product of pairings with an identity']='C11'
m['parameter that is not a number']='C12'
m['rejected or repeated parameters']='C20'
m['halving in the ring']='C15'
m['byte encoding of integers overran']='C15'
m['integers could not be printed to a buffer, and negative ones']='C13'
m['default bounded printer']='C13'
m['two of the Fp implementations printed']='C13'
m['subtracting an integer from a list']='C15'
m['byte encoding of integer multinomials']='C15'
m['integer multinomials could not be printed']='C13'
m['integer multinomials with a zero leading']='C15'
m['zero to the power of a multiple']='C15'
m['%% in a format']='C13'
m['type D parameters with an absurd k']='C12'
m['a short read of the random source']='C14'
m['Pollard rho divided']='C19'
m['a random or hashed element of GT']='C14'
m['random elements of ternary fields']='C14'
m['decoding bytes into a ternary field']='C07'
m['a random point of the ternary curve']='C16'
m['inversion in GF(3^2m)']='C16'
m['every coefficient the same value']='C14'
m['final powering of type G']='C14'
m['preprocessed type A1 pairings leaked']='C20'
m['type E parameters leaked']='C20'
m['type F parameters leaked']='C20'
m['element_mul_si returned']='C05'
m['more than a hundred coefficients']='C12'
