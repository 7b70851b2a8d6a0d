/* Script interpreter driving the real library: one command per line on stdin.
   A script ends with a line "end"; every script runs in its own child process.
   Used to replay failing inputs and for the bounded conformance runs. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <gmp.h>
#include "pbc_utils.h"
#include "pbc_field.h"
#include "pbc_multiz.h"
#include "pbc_z.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
#include "pbc_random.h"
#include "pbc_param.h"
#include "pbc_pairing.h"
#include "pbc_memory.h"
#include "pbc_singular.h"
#include "pbc_mnt.h"
#include "pbc_hilbert.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_a_param.h"
#include "pbc_a1_param.h"
#include "pbc_d_param.h"
#include "pbc_e_param.h"
#include "pbc_f_param.h"
#include "pbc_g_param.h"
#include "pbc_i_param.h"
#include "misc/darray.h"
#include "misc/symtab.h"

#define MAXN 4096
enum { T_FIELD = 1, T_EL, T_PAIRING, T_PARAM, T_DARRAY, T_SYMTAB, T_PP, T_PPP };
static struct { char name[40]; int type; void *p; } tab[MAXN];
static int ntab;
static char *argv_[256];
static int argc_;

static void fail(const char *m) { printf("BADSCRIPT %s (%s)\n", m, argv_[0]); fflush(stdout); _exit(77); }
static void *find(const char *n, int type) {
  for (int i = ntab - 1; i >= 0; i--) if (tab[i].type == type && !strcmp(tab[i].name, n)) return tab[i].p;
  printf("BADSCRIPT unknown %s\n", n); fflush(stdout); _exit(77);
}
static void def(const char *n, int type, void *p) {
  if (ntab >= MAXN) fail("too many names");
  strncpy(tab[ntab].name, n, 39); tab[ntab].type = type; tab[ntab].p = p; ntab++;
}
static field_ptr F(int i) { return find(argv_[i], T_FIELD); }
static element_ptr E(int i) { return find(argv_[i], T_EL); }
static long L(int i) { return strtol(argv_[i], 0, 0); }
static void Z(mpz_t z, int i) { mpz_init(z); if (mpz_set_str(z, argv_[i], 0)) fail("bad integer"); }
static unsigned char *hexdec(const char *s, int *n) {
  int l = strlen(s) / 2; if (!strcmp(s, "-")) l = 0;
  unsigned char *b = malloc(l ? l : 1);
  for (int i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); b[i] = v; }
  *n = l; return b;
}
static void hexout(const unsigned char *b, int n) { for (int i = 0; i < n; i++) printf("%02x", b[i]); if (n <= 0) printf("-"); }

static field_ptr polyfields[64]; static int npolyfields;
static int is_poly(field_ptr f) { for (int i = 0; i < npolyfields; i++) if (polyfields[i] == f) return 1; return 0; }
static void show(element_ptr e) {
  int n = element_item_count(e);
  if (n > 0) {
    printf("[");
    for (int i = 0; i < n; i++) { if (i) printf(" "); show(element_item(e, i)); }
    printf("]");
    return;
  }
  if (e->field->mul == e->field->add && element_is0(e)) { printf("O"); return; }
  if (is_poly(e->field)) { printf("[]"); return; }
  mpz_t z; mpz_init(z); element_to_mpz(z, e); gmp_printf("%Zd", z); mpz_clear(z);
}
static void showpoly(element_ptr e) { int n = element_item_count(e); printf("["); for (int i = 0; i < n; i++) { if (i) printf(" "); show(element_item(e, i)); } printf("]"); }
static void showz(mpz_t z) { gmp_printf("%Zd", z); }

static int stopcb(void *a, void *b) { (void)a; (void)b; return 0; }
static int cm_cb(pbc_cm_ptr cm, void *data) {
  gmp_printf("D %d q %Zd n %Zd h %Zd r %Zd k %d\n", cm->D, cm->q, cm->n, cm->h, cm->r, cm->k);
  (*(int *)data)--;
  return *(int *)data <= 0;
}
static int tdf(mpz_t f, unsigned int m, void *s) { (void)s; gmp_printf("%Zd^%u ", f, m); return 0; }
static char collected[65536];
static void da_print(void *p) { printf("%ld ", (long)(intptr_t)p); }
static void da_print2(void *p, void *d) { printf("%ld:%ld ", (long)(intptr_t)p, (long)(intptr_t)d); }
static void da_print3(void *p, void *a, void *b) { if (a == (void *)3 && b == (void *)4) da_print(p); }
static void da_print4(void *p, void *a, void *b, void *c) { if (a == (void *)3 && b == (void *)4 && c == (void *)5) da_print(p); }
static long st_sum, st_n;
static void st_add(void *p) { st_sum += (long)(intptr_t)p; st_n++; }
static int da_even(void *p) { return ((long)(intptr_t)p) % 2 == 0; }
static int da_gt(void *p, void *s) { return (long)(intptr_t)p > (long)(intptr_t)s; }

static long live_, mark_;
static void *cnt_malloc(size_t n) { live_++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void *cnt_realloc(void *q, size_t n) { if (!q) live_++; void *p = realloc(q, n ? n : 1); if (!p) abort(); return p; }
static void cnt_free(void *q) { if (q) live_--; free(q); }
static void *cnt_grealloc(void *q, size_t o, size_t n) { (void)o; return cnt_realloc(q, n); }
static void cnt_gfree(void *q, size_t n) { (void)n; cnt_free(q); }

static int is(const char *s) { return !strcmp(argv_[0], s); }
#define NEED(n) if (argc_ < (n) + 1) fail("args")
static void showparam(pbc_param_ptr p) {
  char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n);
  pbc_param_out_str(f, p); fclose(f);
  for (size_t i = 0; i < n; i++) { if (b[i] == '\n') printf("|"); else putchar(b[i]); }
  free(b);
}

static void run(void) {
  if (argc_ == 0) return;
  mpz_t z, z2, z3;
  if (is("fp")) { NEED(3); field_ptr f = malloc(sizeof(field_t)); Z(z, 3);
    if (!strcmp(argv_[2], "naive")) field_init_naive_fp(f, z);
    else if (!strcmp(argv_[2], "fast")) field_init_fast_fp(f, z);
    else if (!strcmp(argv_[2], "faster")) field_init_faster_fp(f, z);
    else if (!strcmp(argv_[2], "mont")) field_init_mont_fp(f, z);
    else field_init_fp(f, z);
    mpz_clear(z); def(argv_[1], T_FIELD, f);
  } else if (is("tweak")) { pbc_tweak_use_fp(argv_[1]);
  } else if (is("z")) { field_ptr f = malloc(sizeof(field_t)); field_init_z(f); def(argv_[1], T_FIELD, f);
  } else if (is("multizfield")) { field_ptr f = malloc(sizeof(field_t)); field_init_multiz(f); def(argv_[1], T_FIELD, f);
  } else if (is("quad")) { field_ptr f = malloc(sizeof(field_t)); field_init_quadratic(f, F(2)); def(argv_[1], T_FIELD, f);
  } else if (is("fi")) { field_ptr f = malloc(sizeof(field_t)); field_init_fi(f, F(2)); def(argv_[1], T_FIELD, f);
  } else if (is("poly")) { field_ptr f = malloc(sizeof(field_t)); field_init_poly(f, F(2)); polyfields[npolyfields++] = f; def(argv_[1], T_FIELD, f);
  } else if (is("polymod")) { field_ptr f = malloc(sizeof(field_t)); field_init_polymod(f, E(2)); def(argv_[1], T_FIELD, f);
  } else if (is("gf3m")) { field_ptr f = malloc(sizeof(field_t)); field_init_gf3m(f, L(2), L(3)); def(argv_[1], T_FIELD, f);
  } else if (is("gf32m")) { field_ptr f = malloc(sizeof(field_t)); field_init_gf32m(f, F(2)); def(argv_[1], T_FIELD, f);
  } else if (is("gf33m")) { field_ptr f = malloc(sizeof(field_t)); field_init_gf33m(f, F(2)); def(argv_[1], T_FIELD, f);
  } else if (is("singular")) { field_ptr f = malloc(sizeof(field_t)); field_init_curve_singular_with_node(f, F(2)); def(argv_[1], T_FIELD, f);
  } else if (is("curve")) { NEED(5); field_ptr f = malloc(sizeof(field_t)); Z(z, 4);
    if (!strcmp(argv_[5], "-")) field_init_curve_ab(f, E(2), E(3), z, NULL);
    else { Z(z2, 5); field_init_curve_ab(f, E(2), E(3), z, z2); mpz_clear(z2); }
    mpz_clear(z); def(argv_[1], T_FIELD, f);
  } else if (is("curveb")) { field_ptr f = malloc(sizeof(field_t)); Z(z, 3); Z(z2, 4); field_init_curve_b(f, E(2), z, mpz_sgn(z2) ? z2 : NULL); def(argv_[1], T_FIELD, f);
  } else if (is("curvej")) { field_ptr f = malloc(sizeof(field_t)); Z(z, 3); Z(z2, 4); field_init_curve_j(f, E(2), z, mpz_sgn(z2) ? z2 : NULL); def(argv_[1], T_FIELD, f);
  } else if (is("twist")) { field_reinit_curve_twist(F(1));
  } else if (is("quotcmp")) { Z(z, 2); field_curve_set_quotient_cmp(F(1), z); mpz_clear(z);
  } else if (is("solvefory")) { field_curve_use_random_solvefory(F(1));
  } else if (is("setnqr")) { field_set_nqr(F(1), E(2));
  } else if (is("getnqr")) { def(argv_[2], T_EL, field_get_nqr(F(1)));
  } else if (is("fieldclear")) { field_clear(F(1));
  } else if (is("order")) { gmp_printf("%Zd\n", F(1)->order);
  } else if (is("fixedlen")) { printf("%d\n", F(1)->fixed_length_in_bytes);
  } else if (is("curveab")) { element_ptr a = curve_field_a_coeff(F(1)), b = curve_field_b_coeff(F(1)); show(a); printf(" "); show(b); printf("\n");
  } else if (is("el")) { NEED(2); for (int i = 2; i < argc_; i++) { element_ptr e = malloc(sizeof(element_t)); element_init(e, F(1)); def(argv_[i], T_EL, e); }
  } else if (is("elsame")) { element_ptr e = malloc(sizeof(element_t)); element_init_same_as(e, E(1)); def(argv_[2], T_EL, e);
  } else if (is("elarr")) { /* elarr field name n */ int n = L(3); element_t *a = malloc(n * sizeof(element_t)); char nm[40];
    for (int i = 0; i < n; i++) { element_init(a[i], F(1)); snprintf(nm, 40, "%s%d", argv_[2], i); def(nm, T_EL, a[i]); }
  } else if (is("memmark")) { mark_ = live_;
  } else if (is("memdelta")) { printf("%ld\n", live_ - mark_);
  } else if (is("clear")) { for (int i = 1; i < argc_; i++) element_clear(E(i));
  } else if (is("sub")) { /* sub new parent idx|x|y */ element_ptr e = E(2), s;
    if (!strcmp(argv_[3], "x")) s = element_x(e); else if (!strcmp(argv_[3], "y")) s = element_y(e); else s = element_item(e, L(3));
    if (!s) { printf("NULLITEM\n"); return; } def(argv_[1], T_EL, s);
  } else if (is("setz")) { Z(z, 2); element_set_mpz(E(1), z); mpz_clear(z);
  } else if (is("setsi")) { element_set_si(E(1), L(2));
  } else if (is("set0")) { element_set0(E(1));
  } else if (is("set1")) { element_set1(E(1));
  } else if (is("set")) { element_set(E(1), E(2));
  } else if (is("finite")) { curve_set_si(E(1), 0, 0);   /* then set x and y through sub */
  } else if (is("add")) { element_add(E(1), E(2), E(3));
  } else if (is("sub_")) { element_sub(E(1), E(2), E(3));
  } else if (is("mul")) { element_mul(E(1), E(2), E(3));
  } else if (is("div")) { element_div(E(1), E(2), E(3));
  } else if (is("square")) { element_square(E(1), E(2));
  } else if (is("cubic")) { element_cubic(E(1), E(2));
  } else if (is("double")) { element_double(E(1), E(2));
  } else if (is("halve")) { element_halve(E(1), E(2));
  } else if (is("neg")) { element_neg(E(1), E(2));
  } else if (is("invert")) { element_invert(E(1), E(2));
  } else if (is("mulz")) { Z(z, 3); mpz_init_set(z2, z); element_mul_mpz(E(1), E(2), z); if (mpz_cmp(z, z2)) printf("SCALARCHANGED\n"); mpz_clear(z); mpz_clear(z2);
  } else if (is("mulsi")) { element_mul_si(E(1), E(2), L(3));
  } else if (is("addui")) { element_add_ui(E(1), E(2), strtoul(argv_[3], 0, 0));
  } else if (is("mulzn")) { element_mul_zn(E(1), E(2), E(3));
  } else if (is("powz")) { Z(z, 3); mpz_init_set(z2, z); element_pow_mpz(E(1), E(2), z); if (mpz_cmp(z, z2)) printf("SCALARCHANGED\n"); mpz_clear(z); mpz_clear(z2);
  } else if (is("powzn")) { element_pow_zn(E(1), E(2), E(3));
  } else if (is("pow2")) { Z(z, 3); Z(z2, 5); element_pow2_mpz(E(1), E(2), z, E(4), z2); mpz_clear(z); mpz_clear(z2);
  } else if (is("pow2zn")) { element_pow2_zn(E(1), E(2), E(3), E(4), E(5));
  } else if (is("pow3")) { Z(z, 3); Z(z2, 5); Z(z3, 7); element_pow3_mpz(E(1), E(2), z, E(4), z2, E(6), z3); mpz_clear(z); mpz_clear(z2); mpz_clear(z3);
  } else if (is("pow3zn")) { element_pow3_zn(E(1), E(2), E(3), E(4), E(5), E(6), E(7));
  } else if (is("ppinit")) { struct element_pp_s *p = malloc(sizeof(element_pp_t)); element_pp_init(p, E(2)); def(argv_[1], T_PP, p);
  } else if (is("pppow")) { Z(z, 3); mpz_init_set(z2, z); element_pp_pow(E(1), z, find(argv_[2], T_PP)); if (mpz_cmp(z, z2)) printf("SCALARCHANGED\n"); mpz_clear(z); mpz_clear(z2);
  } else if (is("pppowzn")) { element_pp_pow_zn(E(1), E(3), find(argv_[2], T_PP));
  } else if (is("ppclear")) { element_pp_clear(find(argv_[1], T_PP));
  } else if (is("sqrt")) { element_sqrt(E(1), E(2));
  } else if (is("tonelli")) { element_tonelli(E(1), E(2));
  } else if (is("issqr")) { printf("%d\n", !!element_is_sqr(E(1)));
  } else if (is("is0")) { printf("%d\n", !!element_is0(E(1)));
  } else if (is("is1")) { printf("%d\n", !!element_is1(E(1)));
  } else if (is("cmp")) { printf("%d\n", !!element_cmp(E(1), E(2)));
  } else if (is("cmpsign")) { int c = element_cmp(E(1), E(2)); printf("%d\n", c < 0 ? -1 : c > 0);
  } else if (is("sign")) { int c = element_sign(E(1)); printf("%d\n", c < 0 ? -1 : c > 0);
  } else if (is("sgn")) { int c = element_sgn(E(1)); printf("%d\n", c < 0 ? -1 : c > 0);
  } else if (is("val")) { for (int i = 1; i < argc_; i++) { if (i > 1) printf(" "); show(E(i)); } printf("\n");
  } else if (is("polyval")) { showpoly(E(1)); printf("\n");
  } else if (is("tosi")) { printf("%ld\n", (long)element_to_si(E(1)));
  } else if (is("toz")) { mpz_init(z); element_to_mpz(z, E(1)); showz(z); printf("\n"); mpz_clear(z);
  } else if (is("random")) { element_random(E(1));
  } else if (is("seed")) { pbc_random_set_deterministic(L(1));
  } else if (is("randfile")) { pbc_random_set_file(argv_[1]);
  } else if (is("mpzrandom")) { Z(z, 1); mpz_init(z2); pbc_mpz_random(z2, z); showz(z2); printf("\n"); mpz_clear(z); mpz_clear(z2);
  } else if (is("mpzrandomb")) { mpz_init(z2); pbc_mpz_randomb(z2, L(1)); showz(z2); printf("\n"); mpz_clear(z2);
  } else if (is("hash")) { int n; unsigned char *b = hexdec(argv_[2], &n); element_from_hash(E(1), b, n); free(b);
  } else if (is("mpzhash")) { int n; unsigned char *b = hexdec(argv_[2], &n); Z(z, 1); mpz_init(z2); pbc_mpz_from_hash(z2, z, b, n); showz(z2); printf("\n"); free(b); mpz_clear(z); mpz_clear(z2);
  } else if (is("len")) { printf("%d\n", element_length_in_bytes(E(1)));
  } else if (is("tobytes") || is("tobytesc") || is("tobytesx")) {
    int c = is("tobytesc"), x = is("tobytesx");
    int n = c ? element_length_in_bytes_compressed(E(1)) : x ? element_length_in_bytes_x_only(E(1)) : element_length_in_bytes(E(1));
    unsigned char *b = malloc(n > 0 ? n : 1); memset(b, 0xA5, n > 0 ? n : 1);
    int r = c ? element_to_bytes_compressed(b, E(1)) : x ? element_to_bytes_x_only(b, E(1)) : element_to_bytes(b, E(1));
    printf("%d %d ", n, r); hexout(b, n); printf("\n"); free(b);
  } else if (is("frombytes") || is("frombytesc") || is("frombytesx")) { int n; unsigned char *b = hexdec(argv_[2], &n); int r;
    if (is("frombytesc")) r = element_from_bytes_compressed(E(1), b); else if (is("frombytesx")) r = element_from_bytes_x_only(E(1), b); else r = element_from_bytes(E(1), b);
    printf("%d\n", r); free(b);
  } else if (is("rt") || is("rtc") || is("rtx")) { /* encode the first, decode into the second */
    int c = is("rtc"), x = is("rtx");
    int n = c ? element_length_in_bytes_compressed(E(1)) : x ? element_length_in_bytes_x_only(E(1)) : element_length_in_bytes(E(1));
    unsigned char *b = malloc(n > 0 ? n : 1); int r;
    if (c) { element_to_bytes_compressed(b, E(1)); r = element_from_bytes_compressed(E(2), b); }
    else if (x) { element_to_bytes_x_only(b, E(1)); r = element_from_bytes_x_only(E(2), b); }
    else { element_to_bytes(b, E(1)); r = element_from_bytes(E(2), b); }
    if (r != n) printf("CONSUMED %d of %d\n", r, n);
    free(b);
  } else if (is("setstr")) { /* setstr e base hexstring */ int n; unsigned char *b = hexdec(argv_[3], &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b);
    printf("%d\n", element_set_str(E(1), s, L(2))); free(s);
  } else if (is("snprint")) { /* snprint e n */ int n = L(2); char *s = malloc(n > 0 ? n : 1); memset(s, 0x7e, n > 0 ? n : 1); int r = element_snprint(s, n, E(1)); printf("%d ", r); hexout((unsigned char *)s, n); printf("\n"); free(s);
  } else if (is("outstr")) { char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n); size_t r = element_out_str(f, L(2), E(1)); fclose(f); printf("%zu ", r); hexout((unsigned char *)b, n); printf("\n"); free(b);
  } else if (is("rtstr")) { /* rtstr dst src base */ char *b = 0; size_t n = 0; FILE *f = open_memstream(&b, &n); element_out_str(f, L(3), E(2)); fclose(f); printf("%d\n", element_set_str(E(1), b, L(3))); free(b);
  } else if (is("eprintf")) { int n = 4096; char *s = malloc(n); int r = element_snprintf(s, n, "a=%B;b=%d;c=%s", E(1), 42, "xy"); printf("%d ", r); hexout((unsigned char *)s, strlen(s)); printf("\n"); free(s);
  } else if (is("fmt")) { /* fmt e n hexformat, taking up to three elements */ int k, n = L(2); unsigned char *b = hexdec(argv_[3], &k); char *f = malloc(k + 1); memcpy(f, b, k); f[k] = 0; free(b);
    char *s = malloc(n ? n : 1); memset(s, 0x7e, n ? n : 1); int r = element_snprintf(s, n, f, E(1), E(1), E(1)); printf("%d ", r); hexout((unsigned char *)s, n); printf("\n"); free(s); free(f);
  } else if (is("ffmt")) { int k; unsigned char *b = hexdec(argv_[2], &k); char *f = malloc(k + 1); memcpy(f, b, k); f[k] = 0; free(b);
    char *o = 0; size_t n = 0; FILE *fp = open_memstream(&o, &n); int r = element_fprintf(fp, f, E(1), E(1), E(1)); fclose(fp); printf("%d ", r); hexout((unsigned char *)o, n); printf("\n"); free(o); free(f);
  } else if (is("esnprintf")) { int n = L(2); char *s = malloc(n ? n : 1); memset(s, 0x7e, n ? n : 1); int r = element_snprintf(s, n, "a=%B;b=%d", E(1), 42); printf("%d ", r); hexout((unsigned char *)s, n); printf("\n"); free(s);
  } else if (is("multidouble")) { /* n-array base names a prefix */ int n = L(3); char nm[40]; snprintf(nm, 40, "%s0", argv_[1]); element_t *c = find(nm, T_EL); snprintf(nm, 40, "%s0", argv_[2]); element_t *a = find(nm, T_EL); element_multi_double(c, a, n);
  } else if (is("multiadd")) { int n = L(4); char nm[40]; snprintf(nm, 40, "%s0", argv_[1]); element_t *c = find(nm, T_EL); snprintf(nm, 40, "%s0", argv_[2]); element_t *a = find(nm, T_EL); snprintf(nm, 40, "%s0", argv_[3]); element_t *b = find(nm, T_EL); element_multi_add(c, a, b, n);
  } else if (is("itemcount")) { printf("%d\n", element_item_count(E(1)));
  /* polynomials */
  } else if (is("polydeg")) { printf("%d\n", poly_degree(E(1)));
  } else if (is("polyset")) { /* polyset poly coeffelem n */ poly_set_coeff(E(1), E(2), L(3));
  } else if (is("polyset0")) { poly_set_coeff0(E(1), L(2));
  } else if (is("polyset1")) { poly_set_coeff1(E(1), L(2));
  } else if (is("polysetx")) { poly_setx(E(1));
  } else if (is("polyconstmul")) { poly_const_mul(E(1), E(2), E(3));
  } else if (is("polymodconstmul")) { polymod_const_mul(E(1), E(2), E(3));
  } else if (is("polyisirred")) { printf("%d\n", poly_is_irred(E(1)));
  } else if (is("alarm")) { alarm(L(1));
  } else if (is("polyfindroot")) { /* it reports on stdout */
    fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); int r = poly_findroot(E(1), E(2)); fflush(stdout); dup2(keep, 1); close(keep); close(nul); printf("%d\n", r);
  } else if (is("polyrandmonic")) { poly_random_monic(E(1), L(2));
  } else if (is("fieldtopoly")) { element_field_to_poly(E(1), E(2));
  } else if (is("fieldtopolymod")) { element_field_to_polymod(E(1), E(2));
  } else if (is("fieldtoquad")) { element_field_to_quadratic(E(1), E(2));
  } else if (is("polymoddeg")) { printf("%d\n", polymod_field_degree(F(1)));
  } else if (is("polyeval")) { printf("NA\n");
  /* curve */
  } else if (is("fromx")) { curve_from_x(E(1), E(2));
  } else if (is("gennocofac")) { curve_set_gen_no_cofac(E(1));
  } else if (is("tracen")) { Z(z, 1); Z(z2, 2); mpz_init(z3); pbc_mpz_trace_n(z3, z, z2, L(3)); showz(z3); printf("\n"); mpz_clear(z); mpz_clear(z2); mpz_clear(z3);
  } else if (is("orderextn")) { Z(z, 1); Z(z2, 2); mpz_init(z3); pbc_mpz_curve_order_extn(z3, z, z2, L(3)); showz(z3); printf("\n"); mpz_clear(z); mpz_clear(z2); mpz_clear(z3);
  /* pairing */
  } else if (is("pairing")) { int n; unsigned char *b = hexdec(argv_[2], &n); pairing_ptr p = malloc(sizeof(pairing_t)); int r = pairing_init_set_buf(p, (char *)b, n); printf("%d\n", r); free(b); if (!r) def(argv_[1], T_PAIRING, p);
  } else if (is("pairingstr")) { int n; unsigned char *b = hexdec(argv_[2], &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; pairing_ptr p = malloc(sizeof(pairing_t)); int r = pairing_init_set_str(p, s); printf("%d\n", r); free(b); free(s); if (!r) def(argv_[1], T_PAIRING, p);
  } else if (is("param")) { int n; unsigned char *b = hexdec(argv_[2], &n); pbc_param_ptr p = malloc(sizeof(pbc_param_t)); int r = pbc_param_init_set_buf(p, (char *)b, n); printf("%d\n", r); free(b); if (!r) def(argv_[1], T_PARAM, p);
  } else if (is("paramout")) { showparam(find(argv_[1], T_PARAM)); printf("\n");
  } else if (is("paramclear")) { pbc_param_clear(find(argv_[1], T_PARAM));
  } else if (is("pairingparam")) { pairing_ptr p = malloc(sizeof(pairing_t)); pairing_init_pbc_param(p, find(argv_[2], T_PARAM)); def(argv_[1], T_PAIRING, p);
  } else if (is("gena")) { pbc_param_ptr p = malloc(sizeof(pbc_param_t)); pbc_param_init_a_gen(p, L(2), L(3)); def(argv_[1], T_PARAM, p);
  } else if (is("gena1")) { pbc_param_ptr p = malloc(sizeof(pbc_param_t)); Z(z, 2); pbc_param_init_a1_gen(p, z); mpz_clear(z); def(argv_[1], T_PARAM, p);
  } else if (is("gene")) { pbc_param_ptr p = malloc(sizeof(pbc_param_t)); pbc_param_init_e_gen(p, L(2), L(3)); def(argv_[1], T_PARAM, p);
  } else if (is("genf")) { pbc_param_ptr p = malloc(sizeof(pbc_param_t)); pbc_param_init_f_gen(p, L(2)); def(argv_[1], T_PARAM, p);
  } else if (is("geni")) { pbc_param_ptr p = malloc(sizeof(pbc_param_t)); pbc_param_init_i_gen(p, L(2)); def(argv_[1], T_PARAM, p);
  } else if (is("cmd_")) { int cnt = L(3); pbc_cm_search_d(cm_cb, &cnt, L(1), L(2));
  } else if (is("cmg_")) { int cnt = L(3); pbc_cm_search_g(cm_cb, &cnt, L(1), L(2));
  } else if (is("gend") || is("geng")) { pbc_cm_t cm; pbc_cm_init(cm); cm->D = L(2); mpz_set_str(cm->q, argv_[3], 0); mpz_set_str(cm->n, argv_[4], 0); mpz_set_str(cm->h, argv_[5], 0); mpz_set_str(cm->r, argv_[6], 0); cm->k = L(7);
    pbc_param_ptr p = malloc(sizeof(pbc_param_t)); if (is("gend")) pbc_param_init_d_gen(p, cm); else pbc_param_init_g_gen(p, cm); pbc_cm_clear(cm); def(argv_[1], T_PARAM, p);
  } else if (is("hilbert")) { mpz_t *a; size_t n = pbc_hilbert(&a, L(1)); printf("%zu", n); for (size_t i = 0; i < n; i++) gmp_printf(" %Zd", a[i]); printf("\n"); pbc_hilbert_free(a, n);
  } else if (is("pfield")) { /* pfield name pairing G1|G2|GT|Zr */ pairing_ptr p = find(argv_[2], T_PAIRING); field_ptr f = !strcmp(argv_[3], "G1") ? p->G1 : !strcmp(argv_[3], "G2") ? p->G2 : !strcmp(argv_[3], "GT") ? p->GT : p->Zr; def(argv_[1], T_FIELD, f);
  } else if (is("pel")) { /* pel pairing G1 names.. */ pairing_ptr p = find(argv_[1], T_PAIRING); for (int i = 3; i < argc_; i++) { element_ptr e = malloc(sizeof(element_t));
      if (!strcmp(argv_[2], "G1")) element_init_G1(e, p); else if (!strcmp(argv_[2], "G2")) element_init_G2(e, p); else if (!strcmp(argv_[2], "GT")) element_init_GT(e, p); else element_init_Zr(e, p); def(argv_[i], T_EL, e); }
  } else if (is("pelarr")) { /* pelarr pairing G1 name n */ pairing_ptr p = find(argv_[1], T_PAIRING); int n = L(4); element_t *a = malloc(n * sizeof(element_t)); char nm[40];
    for (int i = 0; i < n; i++) { if (!strcmp(argv_[2], "G1")) element_init_G1(a[i], p); else element_init_G2(a[i], p); snprintf(nm, 40, "%s%d", argv_[3], i); def(nm, T_EL, a[i]); }
  } else if (is("pair")) { pairing_apply(E(1), E(2), E(3), find(argv_[4], T_PAIRING));
  } else if (is("epair")) { element_pairing(E(1), E(2), E(3));
  } else if (is("prodpair")) { int n = L(4); char nm[40]; snprintf(nm, 40, "%s0", argv_[2]); element_t *a = find(nm, T_EL); snprintf(nm, 40, "%s0", argv_[3]); element_t *b = find(nm, T_EL); element_prod_pairing(E(1), a, b, n);
  } else if (is("pairpp")) { struct pairing_pp_s *pp = malloc(sizeof(pairing_pp_t)); pairing_pp_init(pp, E(2), find(argv_[3], T_PAIRING)); def(argv_[1], T_PPP, pp);
  } else if (is("pairppapply")) { pairing_pp_apply(E(1), E(3), find(argv_[2], T_PPP));
  } else if (is("pairppclear")) { pairing_pp_clear(find(argv_[1], T_PPP));
  } else if (is("option")) { pairing_option_set(find(argv_[1], T_PAIRING), argv_[2], argv_[3]);
  } else if (is("symmetric")) { printf("%d\n", !!pairing_is_symmetric(find(argv_[1], T_PAIRING)));
  } else if (is("coddh")) { printf("%d\n", !!is_almost_coddh(E(1), E(2), E(3), E(4), find(argv_[5], T_PAIRING)));
  } else if (is("pr")) { gmp_printf("%Zd\n", ((pairing_ptr)find(argv_[1], T_PAIRING))->r);
  } else if (is("plenchk")) { pairing_ptr p = find(argv_[1], T_PAIRING); element_ptr a = E(2), b = E(3);
    printf("%d %d %d %d %d %d\n", pairing_length_in_bytes_G1(p) == element_length_in_bytes(a), pairing_length_in_bytes_compressed_G1(p) == element_length_in_bytes_compressed(a),
      pairing_length_in_bytes_x_only_G1(p) == element_length_in_bytes_x_only(a), pairing_length_in_bytes_G2(p) == element_length_in_bytes(b),
      pairing_length_in_bytes_compressed_G2(p) == element_length_in_bytes_compressed(b), pairing_length_in_bytes_x_only_G2(p) == element_length_in_bytes_x_only(b));
  } else if (is("plens")) { pairing_ptr p = find(argv_[1], T_PAIRING); printf("%d %d %d %d %d\n", pairing_length_in_bytes_G1(p), pairing_length_in_bytes_compressed_G1(p), pairing_length_in_bytes_G2(p), pairing_length_in_bytes_GT(p), pairing_length_in_bytes_Zr(p));
  } else if (is("pairingclear")) { pairing_clear(find(argv_[1], T_PAIRING));
  /* misc */
  } else if (is("trialdiv")) { Z(z, 1); Z(z2, 2); int r = pbc_trial_divide(tdf, NULL, z, mpz_sgn(z2) ? z2 : NULL); printf("-> %d\n", r); mpz_clear(z); mpz_clear(z2);
  } else if (is("pbcmpzsetstr")) { int n; unsigned char *b = hexdec(argv_[2], &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); mpz_init(z); int r = pbc_mpz_set_str(z, s, L(1)); printf("%d ", r); showz(z); printf("\n"); free(s); mpz_clear(z);
  } else if (is("dlogbf")) { element_dlog_brute_force(E(1), E(2), E(3));
  } else if (is("dlogrho")) { /* it reports its progress on stdout */
    fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); element_dlog_pollard_rho(E(1), E(2), E(3)); fflush(stdout); dup2(keep, 1); close(keep); close(nul);
  } else if (is("rawout")) { /* rawout n z */ int n = L(1); Z(z, 2); unsigned char *b = malloc(n ? n : 1); memset(b, 0xA5, n ? n : 1); pbc_mpz_out_raw_n(b, n, z); hexout(b, n); printf("\n"); free(b); mpz_clear(z);
  } else if (is("multiz")) { /* multiz name hexstr : parse via multiz_new_list etc is internal; use element_set_str on multiz field */ fail("multiz");
  } else if (is("mlist")) { /* takes over what the second element holds */ element_ptr x = multiz_new_list(E(2)); element_ptr e = malloc(sizeof(element_t)); *e = *x; cnt_free(x); def(argv_[1], T_EL, e);
  } else if (is("mappend")) { multiz_append(E(1), E(2));
  } else if (is("setmultiz")) { element_set_multiz(E(1), E(2)->data);
  } else if (is("darray")) { darray_ptr a = malloc(sizeof(darray_t)); darray_init(a); def(argv_[1], T_DARRAY, a);
  } else if (is("da")) { darray_ptr a = find(argv_[1], T_DARRAY); const char *o = argv_[2];
    if (!strcmp(o, "append")) darray_append(a, (void *)(intptr_t)L(3));
    else if (!strcmp(o, "at")) printf("%ld\n", (long)(intptr_t)darray_at(a, L(3)));
    else if (!strcmp(o, "count")) printf("%d\n", darray_count(a));
    else if (!strcmp(o, "removeindex")) darray_remove_index(a, L(3));
    else if (!strcmp(o, "remove")) darray_remove(a, (void *)(intptr_t)L(3));
    else if (!strcmp(o, "removelast")) darray_remove_last(a);
    else if (!strcmp(o, "indexof")) printf("%d\n", darray_index_of(a, (void *)(intptr_t)L(3)));
    else if (!strcmp(o, "isempty")) printf("%d\n", !!darray_is_empty(a));
    else if (!strcmp(o, "removeeven")) darray_remove_with_test(a, da_even);
    else if (!strcmp(o, "attest")) printf("%ld\n", (long)(intptr_t)darray_at_test(a, da_gt, (void *)(intptr_t)L(3)));
    else if (!strcmp(o, "copy")) darray_copy(find(argv_[3], T_DARRAY), a);
    else if (!strcmp(o, "appendall")) { darray_ptr b = find(argv_[3], T_DARRAY); darray_copy(b, a); }
    else if (!strcmp(o, "foreach")) { darray_forall(a, da_print); printf("\n"); }
    else if (!strcmp(o, "foreach2")) { darray_forall2(a, da_print2, (void *)(intptr_t)L(3)); printf("\n"); }
    else if (!strcmp(o, "foreach3")) { darray_forall3(a, da_print3, (void *)3, (void *)4); printf("\n"); }
    else if (!strcmp(o, "foreach4")) { darray_forall4(a, da_print4, (void *)3, (void *)4, (void *)5); printf("\n"); }
    else if (!strcmp(o, "last")) printf("%ld\n", (long)(intptr_t)darray_last(a));
    else if (!strcmp(o, "removeall")) darray_remove_all(a);
    else if (!strcmp(o, "clear")) darray_clear(a);
    else fail("da op");
  } else if (is("symtab")) { symtab_ptr t = malloc(sizeof(symtab_t)); symtab_init(t); def(argv_[1], T_SYMTAB, t);
  } else if (is("st")) { symtab_ptr t = find(argv_[1], T_SYMTAB); const char *o = argv_[2]; if (argc_ > 3 && !strcmp(argv_[3], "@")) argv_[3] = "";
    if (!strcmp(o, "put")) symtab_put(t, (void *)(intptr_t)L(4), argv_[3]);
    else if (!strcmp(o, "has")) printf("%d\n", !!symtab_has(t, argv_[3]));
    else if (!strcmp(o, "at")) printf("%ld\n", (long)(intptr_t)symtab_at(t, argv_[3]));
    else if (!strcmp(o, "sum")) { st_sum = st_n = 0; symtab_forall_data(t, st_add); printf("%ld %ld\n", st_n, st_sum); }
    else if (!strcmp(o, "clear")) symtab_clear(t);
    else fail("st op");
  } else fail("command");
  (void)stopcb; (void)collected;
}

int main(void) {
  static char line[1 << 20];
  char **buf = malloc(sizeof(char *) * 200000);
  int n = 0, id = 0;
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  pbc_set_msg_to_stderr(0);
  mp_set_memory_functions(cnt_malloc, cnt_grealloc, cnt_gfree);
  pbc_set_memory_functions(cnt_malloc, cnt_realloc, cnt_free);
  for (;;) {
    char *r = fgets(line, sizeof line, stdin);
    if (!r || !strncmp(line, "end", 3)) {
      if (n) {
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
          alarm(getenv("DRV_TIMEOUT") ? atoi(getenv("DRV_TIMEOUT")) : 60);
          for (int i = 0; i < n; i++) {
            argc_ = 0;
            for (char *t = strtok(buf[i], " \n"); t; t = strtok(0, " \n")) if (argc_ < 255) argv_[argc_++] = t;
            if (argc_ && argv_[0][0] == '#') continue;
            run();
            fflush(stdout);
          }
          fflush(stdout);
          _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("== %d ok\n", id);
        else if (WIFEXITED(st)) printf("== %d exit %d\n", id, WEXITSTATUS(st));
        else printf("== %d signal %d\n", id, WTERMSIG(st));
        fflush(stdout);
        id++;
      }
      for (int i = 0; i < n; i++) free(buf[i]);
      n = 0;
      if (!r) break;
      continue;
    }
    if (n < 200000) buf[n++] = strdup(line);
  }
  return 0;
}
