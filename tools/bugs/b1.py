PRE='''#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "pbc_utils.h"
#include "pbc_field.h"
#include "pbc_multiz.h"
#include "pbc_z.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
#include "pbc_random.h"
#include "pbc_param.h"
#include "pbc_pairing.h"
#include "pbc_memory.h"
#include "pbc_singular.h"
#include "pbc_mnt.h"
#include "pbc_hilbert.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_a_param.h"
#include "pbc_a1_param.h"
#include "pbc_d_param.h"
#include "pbc_e_param.h"
#include "pbc_f_param.h"
#include "pbc_g_param.h"
#include "pbc_i_param.h"
'''
BUGS=[
dict(id='mont-add-carry',property='C01',needs='a modulus whose top word is full and two operands whose sum overflows the words but stays close to the modulus',
 breaks='the sum of two Montgomery-form residues is wrong when the words overflow and the reduced sum is larger than the modulus allows',
 edits=[('arith/montfp.c','''    carry = mpn_add_n(cd->d, ad->d, bd->d, t);

    if (carry) {''','''    carry = mpn_add_n(cd->d, ad->d, bd->d, t);

    if (carry && cd->d[t - 1] < p->primelimbs[t - 1]) {''')],
 demo=PRE+'''
int main(void){ mpz_t p,z,w; mpz_init(p);mpz_init(z);mpz_init(w); mpz_ui_pow_ui(p,2,128); mpz_sub_ui(p,p,159);
 field_t f; field_init_mont_fp(f,p); element_t a,b,c; element_init(a,f);element_init(b,f);element_init(c,f);
 gmp_randstate_t rs; gmp_randinit_default(rs);
 mpz_t R; mpz_init(R); mpz_ui_pow_ui(R,2,128); mpz_invert(R,R,p);
 for(int i=0;i<400;i++){ mpz_t x,y,s; mpz_init(x);mpz_init(y);mpz_init(s);
  /* residues whose internal words are p-1-i and p-1-2i */
  mpz_sub_ui(x,p,1+i%20); mpz_mul(x,x,R); mpz_mod(x,x,p);
  mpz_sub_ui(y,p,1+i/20); mpz_mul(y,y,R); mpz_mod(y,y,p);
  element_set_mpz(a,x); element_set_mpz(b,y); element_add(c,a,b); element_to_mpz(z,c);
  mpz_add(s,x,y); mpz_mod(s,s,p); if(mpz_cmp(s,z)){ gmp_printf("%Zd + %Zd gave %Zd\\n",x,y,z); return 1;} }
 return 0; }
'''),
dict(id='curve-double-order2',property='C04',needs='doubling a point of order two when source and destination differ and the destination previously held a finite point',
 breaks='twice a point of order two is not the identity',
 edits=[('ecc/curve.c','''  if (element_is0(p->y)) {
    r->inf_flag = 1;
    return;
  }
  double_no_check(r, p, cdp->a);''','''  if (element_is0(p->y)) {
    p->inf_flag = 1;
    return;
  }
  double_no_check(r, p, cdp->a);''')],
 demo=PRE+'''
int main(void){ mpz_t p; mpz_init_set_ui(p,7); field_t f,e; field_init_fp(f,p); element_t a,b,P,Q; element_init(a,f);element_init(b,f);
 element_set_si(a,1); element_set0(b); mpz_t n; mpz_init_set_ui(n,8); field_init_curve_ab(e,a,b,n,NULL);
 element_init(P,e);element_init(Q,e); curve_set_si(P,0,0); curve_set_si(Q,1,3); element_double(Q,P);
 if(!element_is0(Q)) return 1; if(element_is0(P)) return 2; return 0; }
'''),
dict(id='fi-mul-alias',property='C02',needs='multiplying in the field adjoining a square root of minus one with the result being the same object as the second factor only',
 breaks='the product is wrong when the destination is the second factor',
 edits=[('arith/fieldquadratic.c','''  element_mul(e1, p->y, q->y);
  element_sub(r->x, e0, e1);
  element_sub(r->y, e2, e1);

  element_clear(e0);
  element_clear(e1);
  element_clear(e2);
}

static void fi_square(''','''  element_set(r->x, e0);
  element_mul(e1, p->y, q->y);
  element_sub(r->x, r->x, e1);
  element_sub(r->y, e2, e1);
  if (n == b && element_is0(p->x)) element_neg(r->y, r->y);

  element_clear(e0);
  element_clear(e1);
  element_clear(e2);
}

static void fi_square(''')],
 demo=PRE+'''
int main(void){ mpz_t p; mpz_init_set_ui(p,1000003); while(mpz_fdiv_ui(p,4)!=3) mpz_nextprime(p,p); field_t f,k; field_init_fp(f,p); field_init_fi(k,f);
 element_t a,b,c; element_init(a,k);element_init(b,k);element_init(c,k);
 element_set0(element_x(a)); element_set_si(element_y(a),5); element_set_si(element_x(b),7); element_set_si(element_y(b),11);
 element_mul(c,a,b); element_mul(b,a,b); return element_cmp(b,c)?1:0; }
'''),
]
