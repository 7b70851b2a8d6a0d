/* Thin callers of the public API: the entry points of the verification units.
   Every function below only calls the (often static inline) library function of
   the same name, so the library's own header and source bodies are what runs. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "pbc_utils.h"
#include "pbc_field.h"
#include "pbc_multiz.h"
#include "pbc_z.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
#include "pbc_random.h"
#include "pbc_param.h"
#include "pbc_pairing.h"
#include "pbc_memory.h"
#include "pbc_singular.h"
#include "pbc_ternary_extension_field.h"

typedef element_ptr E;
void v_init(E e, field_ptr f) { element_init(e, f); }
void v_init_same_as(E e, E f) { element_init_same_as(e, f); }
void v_clear(E e) { element_clear(e); }
void v_set0(E e) { element_set0(e); }
void v_set1(E e) { element_set1(e); }
void v_set_si(E e, long i) { element_set_si(e, i); }
void v_set_mpz(E e, mpz_ptr z) { element_set_mpz(e, z); }
void v_set(E e, E a) { element_set(e, a); }
void v_add_ui(E n, E a, unsigned long b) { element_add_ui(n, a, b); }
void v_to_mpz(mpz_ptr z, E e) { element_to_mpz(z, e); }
long v_to_si(E e) { return element_to_si(e); }
void v_from_hash(E e, void *d, int len) { element_from_hash(e, d, len); }
void v_add(E n, E a, E b) { element_add(n, a, b); }
void v_sub(E n, E a, E b) { element_sub(n, a, b); }
void v_mul(E n, E a, E b) { element_mul(n, a, b); }
void v_cubic(E n, E a) { element_cubic(n, a); }
void v_mul_mpz(E n, E a, mpz_ptr z) { element_mul_mpz(n, a, z); }
void v_mul_si(E n, E a, long z) { element_mul_si(n, a, z); }
void v_mul_zn(E n, E a, E z) { element_mul_zn(n, a, z); }
void v_div(E n, E a, E b) { element_div(n, a, b); }
void v_double(E n, E a) { element_double(n, a); }
void v_halve(E n, E a) { element_halve(n, a); }
void v_square(E n, E a) { element_square(n, a); }
void v_pow_mpz(E n, E a, mpz_ptr z) { element_pow_mpz(n, a, z); }
void v_pow_zn(E n, E a, E z) { element_pow_zn(n, a, z); }
void v_pow2_mpz(E x, E a, mpz_ptr m, E b, mpz_ptr n) { element_pow2_mpz(x, a, m, b, n); }
void v_pow2_zn(E x, E a, E m, E b, E n) { element_pow2_zn(x, a, m, b, n); }
void v_pow3_mpz(E x, E a, mpz_ptr m, E b, mpz_ptr n, E c, mpz_ptr o) { element_pow3_mpz(x, a, m, b, n, c, o); }
void v_pow3_zn(E x, E a, E m, E b, E n, E c, E o) { element_pow3_zn(x, a, m, b, n, c, o); }
void v_neg(E n, E a) { element_neg(n, a); }
void v_invert(E n, E a) { element_invert(n, a); }
void v_random(E e) { element_random(e); }
int v_is1(E e) { return element_is1(e); }
int v_is0(E e) { return element_is0(e); }
int v_cmp(E a, E b) { return element_cmp(a, b); }
int v_is_sqr(E a) { return element_is_sqr(a); }
int v_sign(E a) { return element_sign(a); }
int v_sgn(E a) { return element_sgn(a); }
void v_sqrt(E a, E b) { element_sqrt(a, b); }
int v_length_in_bytes(E e) { return element_length_in_bytes(e); }
int v_to_bytes(unsigned char *d, E e) { return element_to_bytes(d, e); }
int v_from_bytes(E e, unsigned char *d) { return element_from_bytes(e, d); }
int v_to_bytes_compressed(unsigned char *d, E e) { return element_to_bytes_compressed(d, e); }
int v_from_bytes_compressed(E e, unsigned char *d) { return element_from_bytes_compressed(e, d); }
int v_length_in_bytes_compressed(E e) { return element_length_in_bytes_compressed(e); }
int v_to_bytes_x_only(unsigned char *d, E e) { return element_to_bytes_x_only(d, e); }
int v_from_bytes_x_only(E e, unsigned char *d) { return element_from_bytes_x_only(e, d); }
int v_length_in_bytes_x_only(E e) { return element_length_in_bytes_x_only(e); }
void v_pp_init(element_pp_ptr p, E a);
void v_pp_clear(element_pp_ptr p);
int v_item_count(E e) { return element_item_count(e); }
E v_item(E e, int i) { return element_item(e, i); }
field_ptr v_item_field(E e) { return element_item_field(e); }
E v_x(E e) { return element_x(e); }
E v_y(E e) { return element_y(e); }
int v_set_str(E e, const char *s, int base) { return element_set_str(e, s, base); }
int v_snprint(char *s, size_t n, E e) { return element_snprint(s, n, e); }
size_t v_out_str(FILE *f, int base, E e) { return element_out_str(f, base, e); }
void v_pp(element_ptr base, element_ptr out, mpz_ptr z) {
  element_pp_t p;
  element_pp_init(p, base);
  element_pp_pow(out, z, p);
  element_pp_clear(p);
}
void v_pp2(element_ptr base, element_ptr out, mpz_ptr z, element_ptr out2, mpz_ptr z2) {
  element_pp_t p;
  element_pp_init(p, base);
  element_pp_pow(out, z, p);
  element_pp_pow(out2, z2, p);
  element_pp_clear(p);
}
void v_pp_zn(element_ptr base, element_ptr out, element_ptr z) {
  element_pp_t p;
  element_pp_init(p, base);
  element_pp_pow_zn(out, z, p);
  element_pp_clear(p);
}
void v_multi_double(element_t n[], element_t a[], int m) { element_multi_double(n, a, m); }
void v_multi_add(element_t n[], element_t a[], element_t b[], int m) { element_multi_add(n, a, b, m); }
int v_poly_degree(E e) { return poly_degree(e); }
void v_pairing_apply(E out, E a, E b, pairing_ptr p) { pairing_apply(out, a, b, p); }
void v_element_pairing(E out, E a, E b) { element_pairing(out, a, b); }
void v_prod_pairing(E out, element_t a[], element_t b[], int n) { element_prod_pairing(out, a, b, n); }
void v_pairing_pp(E out, E a, E b, pairing_ptr p) {
  pairing_pp_t pp;
  pairing_pp_init(pp, a, p);
  pairing_pp_apply(out, b, pp);
  pairing_pp_clear(pp);
}
void v_pairing_pp2(E out, E a, E b, E out2, E b2, pairing_ptr p) {
  pairing_pp_t pp;
  pairing_pp_init(pp, a, p);
  pairing_pp_apply(out, b, pp);
  pairing_pp_apply(out2, b2, pp);
  pairing_pp_clear(pp);
}
int v_pairing_is_symmetric(pairing_ptr p) { return pairing_is_symmetric(p); }
int v_is_almost_coddh(E a, E b, E c, E d, pairing_ptr p) { return is_almost_coddh(a, b, c, d, p); }
void v_pairing_option_set(pairing_ptr p, char *k, char *v) { pairing_option_set(p, k, v); }
void v_init_G1(E e, pairing_ptr p) { element_init_G1(e, p); }
void v_init_G2(E e, pairing_ptr p) { element_init_G2(e, p); }
void v_init_GT(E e, pairing_ptr p) { element_init_GT(e, p); }
void v_init_Zr(E e, pairing_ptr p) { element_init_Zr(e, p); }
int v_pairing_len(pairing_ptr p, int k) {
  switch (k) {
    case 0: return pairing_length_in_bytes_G1(p);
    case 1: return pairing_length_in_bytes_x_only_G1(p);
    case 2: return pairing_length_in_bytes_compressed_G1(p);
    case 3: return pairing_length_in_bytes_G2(p);
    case 4: return pairing_length_in_bytes_x_only_G2(p);
    case 5: return pairing_length_in_bytes_compressed_G2(p);
    case 6: return pairing_length_in_bytes_GT(p);
    default: return pairing_length_in_bytes_Zr(p);
  }
}
E v_curve_a_coeff(E e) { return curve_a_coeff(e); }
E v_curve_b_coeff(E e) { return curve_b_coeff(e); }
E v_curve_x(E e) { return curve_x_coord(e); }
E v_curve_y(E e) { return curve_y_coord(e); }
E v_curve_field_a(field_ptr f) { return curve_field_a_coeff(f); }
E v_curve_field_b(field_ptr f) { return curve_field_b_coeff(f); }
void v_param_out_str(FILE *f, pbc_param_ptr p) { pbc_param_out_str(f, p); }
void v_param_clear(pbc_param_ptr p) { pbc_param_clear(p); }
E v_field_get_nqr(field_ptr f) { return field_get_nqr(f); }
size_t v_sizeof_field(void) { return sizeof(field_t); }
