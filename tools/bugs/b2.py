import os, runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))['PRE']
E = lambda f, a, b: (f, a, b)
PAIR = PRE + r'''
static int bil(const char *txt, const char *opt) {
  pairing_t e; int bad = 0, t;
  if (pairing_init_set_buf(e, txt, strlen(txt))) return 9;
  if (opt) e->option_set(e, "method", (char *)opt);
  element_t P,Q,P2,Q2,g,h,k; element_init_G1(P,e); element_init_G2(Q,e); element_init_G1(P2,e); element_init_G2(Q2,e);
  element_init_GT(g,e); element_init_GT(h,e); element_init_GT(k,e);
  for (t=0;t<6 && !bad;t++) { element_random(P); element_random(Q); if(element_is0(P)||element_is0(Q)) continue;
    mpz_t a; mpz_init_set_ui(a, 3+t); element_mul_mpz(P2,P,a); element_mul_mpz(Q2,Q,a);
    element_pairing(g,P,Q); element_pow_mpz(g,g,a); element_pairing(h,P2,Q); element_pairing(k,P,Q2);
    if (element_cmp(g,h)||element_cmp(g,k)) { printf("not bilinear\n"); bad=1; }
    mpz_clear(a); }
  return bad; }
'''
BUGS = [
dict(id='tonelli-twoadic', property='C06', needs='a prime field whose order minus one is divisible by 2^24',
 breaks='the square root of a square does not square back to it',
 edits=[E('arith/field.c', '  for (i = 2; i <= s; i++) {\n    mpz_sub_ui(t0', '  for (i = 2; i <= s && i < 24; i++) {\n    mpz_sub_ui(t0')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_str(p,"18446744069414584321",10); field_t f; field_init_fp(f,p); element_t a,b,c; element_init(a,f);element_init(b,f);element_init(c,f);
 for(int i=2;i<40;i++){ element_set_si(a,i); element_square(b,a); element_sqrt(c,b); element_square(c,c); if(element_cmp(c,b)){ printf("%d\n",i); return 1;} } return 0; }
'''),
dict(id='fq-issqr-base', property='C06', needs='an element of the base field that is not a square there, tested in the quadratic extension',
 breaks='a square of the extension tests as a nonsquare',
 edits=[E('arith/fieldquadratic.c', '  element_sub(e0, e0, e1);\n  result = element_is_sqr(e0);', '  element_sub(e0, e0, e1);\n  result = element_is_sqr(element_is0(p->y) ? p->x : e0);')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_ui(p,1000003); field_t f,g; field_init_fp(f,p); field_init_quadratic(g,f); element_t a,b; element_init(a,g); element_init(b,g);
 for(int i=1;i<50;i++){ element_set_si(a,i); if(!element_is_sqr(a)){ printf("%d\n",i); return 1;} } return 0; }
'''),
dict(id='hash-equals-limit', property='C14', needs='a hash whose leading bytes spell the limit itself',
 breaks='the integer obtained by hashing equals the limit instead of being below it',
 edits=[E('arith/field.c', '  while (mpz_cmp(z, limit) >= 0) {\n    mpz_tdiv_q_2exp(z, z, 1);', '  while (mpz_cmp(z, limit) > 0) {\n    mpz_tdiv_q_2exp(z, z, 1);')],
 demo=PRE + r'''
int main(void){ mpz_t z,l; mpz_init(z); mpz_init_set_ui(l,0xfb17); unsigned char h[4]={0xfb,0x17,9,9}; pbc_mpz_from_hash(z,l,h,4); return mpz_cmp(z,l)>=0; }
'''),
dict(id='comment-carriage-return', property='C12', needs='a comment that contains a carriage return followed by more text',
 breaks='the rest of a comment after a carriage return is read as parameters',
 edits=[E('ecc/param.c', "      } while (c != '\\n');", "      } while (!strchr(\"\\r\\n\", c));")],
 demo=PRE + r'''
int main(void){ const char *t="type a\n# note\rsign0 7 \nq 59\nh 12\nr 5\nexp2 2\nexp1 1\nsign1 -1\nsign0 1\n"; const char *u="# x\rq 7\ntype a1\np 59\nn 15\nl 4\n";
 pbc_param_t p; if (pbc_param_init_set_str(p,t)) return 1; pbc_param_clear(p);
 char b[400]; FILE *f; const char *v="type a\nq 59\nh 12\nr 5\nexp2 2\nexp1 1\nsign1 -1\nsign0 1\n# note\rq 7\n"; if(pbc_param_init_set_str(p,v)) return 1;
 memset(b,0,400); f=fmemopen(b,400,"w"); pbc_param_out_str(f,p); fclose(f); (void)u; return !strstr(b,"q 59"); }
'''),
dict(id='order-extn-alias', property='C17', needs='computing a curve order over an extension with the result stored over the field size',
 breaks='the order of the curve over the extension is wrong',
 edits=[E('ecc/curve.c', '  mpz_pow_ui(z, q, k);\n  mpz_add_ui(z, z, 1);', '  mpz_pow_ui(res, q, k);\n  mpz_add_ui(z, res, 1);')],
 demo=PRE + r'''
int main(void){ mpz_t q,t,r,s; mpz_init_set_ui(q,1009); mpz_init_set_si(t,-17); mpz_init(r); mpz_init(s); pbc_mpz_curve_order_extn(r,q,t,3);
 mpz_set(s,q); pbc_mpz_curve_order_extn(s,s,t,3); return mpz_cmp(r,s)!=0; }
'''),
dict(id='dlog-brute-wide', property='C19', needs='a logarithm above 65535',
 breaks='the exponent returned does not give the target',
 edits=[E('arith/dlog.c', '  element_set_mpz(x, count);\n  mpz_clear(count);', '  element_set_si(x, (unsigned short)mpz_get_ui(count));\n  mpz_clear(count);')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_ui(p,140009); field_t f,z; mpz_t r; mpz_init_set_ui(r,140009); 
 /* squares mod 160367 = 2*80183+1 */ mpz_set_ui(p,160367); mpz_set_ui(r,80183); field_init_fp(f,p); field_init_fp(z,r);
 element_t g,h,x; element_init(g,f);element_init(h,f);element_init(x,z); element_set_si(g,4); mpz_t e; mpz_init_set_ui(e,70001); element_pow_mpz(h,g,e);
 element_dlog_brute_force(x,g,h); mpz_t y; mpz_init(y); element_to_mpz(y,x); element_pow_mpz(g,g,y); return element_cmp(g,h)!=0; }
'''),
dict(id='remove-index-last', property='C18', needs='removing by index from an array whose item capacity is larger than the count, at a middle position',
 breaks='the sequence after a removal is not the one described',
 edits=[E('misc/darray.c', '    memmove(&a->item[n], &a->item[n+1], sizeof(void *) * (a->count - n));\n}\n\nvoid darray_remove(', '    memmove(&a->item[n], &a->item[n+1], sizeof(void *) * (a->count - n > 8 ? 8 : a->count - n));\n}\n\nvoid darray_remove(')],
 demo=PRE + r'''
#include "misc/darray.h"
int main(void){ darray_t a; darray_init(a); for(long i=0;i<40;i++) darray_append(a,(void*)i); darray_remove_index(a,5); 
 for(int i=0;i<39;i++) if((long)darray_at(a,i)!=(i<5?i:i+1)) return 1; return darray_count(a)!=39; }
'''),
dict(id='e-sign0-vertical', property='C10', needs='type E parameters whose order has a negative constant term and a positive middle term, affine evaluation',
 breaks='the pairing is not bilinear',
 edits=[E('ecc/e_param.c', '  n = p->exp1;\n  for (i=0; i<n; i++) {\n    element_square(v, v);\n    element_square(vd, vd);\n    do_tangent(v, vd);\n    proj_double();\n    do_vertical(vd, v, Zx);\n  }\n  to_affine();\n  if (p->sign1 < 0) {\n    element_set(v1, vd);\n    element_set(vd1, v);\n    do_vertical(vd1, v1, Zx);',
          '  n = p->exp1;\n  for (i=0; i<n; i++) {\n    element_square(v, v);\n    element_square(vd, vd);\n    do_tangent(v, vd);\n    proj_double();\n    do_vertical(vd, v, Zx);\n  }\n  to_affine();\n  if (p->sign1 < 0) {\n    element_set(v1, vd);\n    element_set(vd1, v);\n    do_vertical(v1, vd1, Zx);')],
 demo=PAIR + r'''int main(void){ return bil("type e\nq 246321781979219616494161143385905768301\nr 1099511562239\nh 203752626792300\na 0\nb 1\nexp2 40\nexp1 16\nsign1 -1\nsign0 -1\n","miller") ; }
'''),
dict(id='prod-negative-sign', property='C11', needs='type A parameters whose order has a negative middle term and a product of at least one pairing',
 breaks='the product of pairings computed at once is not the product of the pairings',
 edits=[E('ecc/a_param.c', '    for(j=0; j<n_prod; j++){\n      element_neg(V1[j], V[j]);\n    }\n    element_invert(f1, f);', '    for(j=0; j<n_prod; j++){\n      element_neg(V1[j], V[j]);\n    }\n    element_set(f1, f);')],
 demo=PRE + r'''
int main(void){ pairing_t e; mpz_t q; 
 const char *t="type a\nq 2819\nh 60\nr 47\nexp2 6\nexp1 4\nsign1 -1\nsign0 -1\n"; if(pairing_init_set_str(e,t)) return 9; element_t P[2],Q[2],g,h,k; for(int i=0;i<2;i++){element_init_G1(P[i],e);element_init_G2(Q[i],e);} element_init_GT(g,e);element_init_GT(h,e);element_init_GT(k,e); (void)q;
 for(int n=0;n<20;n++){ for(int i=0;i<2;i++){element_random(P[i]);element_random(Q[i]);} element_prod_pairing(g,P,Q,2); element_pairing(h,P[0],Q[0]); element_pairing(k,P[1],Q[1]); element_mul(h,h,k); if(element_cmp(g,h)) return 1;} return 0; }
'''),
dict(id='g-coddh-positive', property='C11', needs='the almost co-Diffie-Hellman test of type G on tuples whose ratios agree with the same sign',
 breaks='the test answers no although the ratios agree',
 edits=[E('ecc/g_param.c', '    element_invert(t1, t1);\n    element_mul(t2, t0, t1);\n    if (element_is1(t2)) {\n      //g, g^x, h, h^x case', '    element_invert(t2, t2);\n    if (element_is1(t2)) {\n      //g, g^x, h, h^x case')],
 demo=PRE + r'''
int main(void){ pairing_t e; const char *t="type g\nq 283\nn 251\nh 1\nr 251\na 170\nb 19\nnk 3295067800664501275179007\nhk 52301833314780738007\ncoeff0 282\ncoeff1 123\ncoeff2 273\ncoeff3 61\ncoeff4 183\nnqr 219\n";
 if(pairing_init_set_str(e,t)) return 9; element_t P,Q,X,Y; element_init_G1(P,e);element_init_G1(X,e);element_init_G2(Q,e);element_init_G2(Y,e); element_random(P); element_random(Q); mpz_t z; mpz_init_set_ui(z,7);
 while(element_is0(P)) element_random(P); while(element_is0(Q)) element_random(Q); element_mul_mpz(X,P,z); element_mul_mpz(Y,Q,z);
 return !is_almost_coddh(P,X,Q,Y,e); }
'''),
dict(id='pp-table-rows', property='C05', needs='preprocessed exponentiation with an exponent of 1281 bits or more',
 breaks='the highest digits of the exponent are not used',
 edits=[E('arith/field.c', '  for (row = 0; row < num_lookups; row++) {\n    word = 0;', '  for (row = 0; row < num_lookups && row < 256; row++) {\n    word = 0;')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init(p); mpz_ui_pow_ui(p,2,1400); mpz_nextprime(p,p); field_t f; field_init_fp(f,p); element_t a,b,c; element_init(a,f);element_init(b,f);element_init(c,f); element_set_si(a,5);
 element_pp_t pp; element_pp_init(pp,a); mpz_t n; mpz_init(n); mpz_sub_ui(n,p,77); element_pp_pow(b,n,pp); element_pow_mpz(c,a,n); if(element_cmp(b,c)) return 1; element_pp_clear(pp); return 0; }
'''),
dict(id='lucas-early-leak', property='C20', needs='the final powering of type D on a value whose first step gives one',
 breaks='an early exit keeps a temporary element',
 edits=[E('ecc/d_param.c', '  if (element_is1(in)) {\n    element_set(out, in);\n    return;\n  }\n  element_t temp;\n  element_init_same_as(temp, out);', '  element_t temp;\n  element_init_same_as(temp, out);\n  if (element_is1(in)) {\n    element_set(out, in);\n    return;\n  }')],
 demo=PRE + r'''
static long live; static void *m(size_t n){live++;return malloc(n);} static void *r(void*p,size_t n){ if(!p) live++; return realloc(p,n);} static void f(void*p){ if(p) live--; free(p);}
int main(void){ pbc_set_memory_functions(m,r,f); pairing_t e; const char *t="type d\nq 17\nn 13\nh 1\nr 13\na 10\nb 1\nk 6\nnk 24130496\nhk 142784\ncoeff0 2\ncoeff1 7\ncoeff2 13\nnqr 11\n"; if(pairing_init_set_str(e,t)) return 9;
 element_t g; element_init_GT(g,e); element_random(g); long b=live; for(int i=0;i<4000;i++) element_random(g); return live!=b; }
'''),
dict(id='poly-long-bytes', property='C07', needs='a polynomial with more than 255 coefficients',
 breaks='decoding an encoded polynomial does not return it',
 edits=[E('arith/poly.c', '  buf[1] = (unsigned char) (count >> 8);', '  buf[1] = (unsigned char) (count >> 16);')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_ui(p,101); field_t f,g; field_init_fp(f,p); field_init_poly(g,f); element_t a,b; element_init(a,g);element_init(b,g); poly_random_monic(a,300);
 unsigned char *d=malloc(element_length_in_bytes(a)); element_to_bytes(d,a); element_from_bytes(b,d); return element_cmp(a,b)!=0; }
'''),
dict(id='eta-mod6-five', property='C16', needs='a field degree congruent to five modulo six',
 breaks='the final powering is wrong and the pairing is not bilinear',
 edits=[E('ecc/eta_T_3.c', '        element_add(v3, m8, a5);\n        element_add(v3, v3, a6);', '        element_add(v3, m8, a6);\n        element_add(v3, v3, a6);')],
 demo=PRE + r'''
int main(void){ pairing_t e; int bad=0; const char *tx[]={"type i\nm 11\nt 2\nn 25411\nn2 7\n","type i\nm 23\nt 8\nn 1476463\nn2 63763\n"};
 for(int k=0;k<2;k++){ if(pairing_init_set_str(e,tx[k])) return 9;
  element_t P,Q,R,g,h; element_init_G1(P,e);element_init_G2(Q,e);element_init_G1(R,e);element_init_GT(g,e);element_init_GT(h,e);
  for(int i=0;i<5;i++){ element_random(P);element_random(Q); element_add(R,P,P); element_pairing(g,P,Q); element_mul(g,g,g); element_pairing(h,R,Q); if(element_cmp(g,h)) bad=1; } }
 return bad; }
'''),
dict(id='base36-reject', property='C13', needs='printing and reading an element in base 36',
 breaks='the text printed in base 36 is not read back',
 edits=[E('arith/field.c', '  else if (base < 2 || base > 36) return 0;', '  else if (base < 2 || base >= 36) return 0;')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_ui(p,1000003); field_t f; field_init_fp(f,p); element_t a,b; element_init(a,f);element_init(b,f); element_set_si(a,123456); char s[100]; memset(s,0,100); FILE *o=fmemopen(s,100,"w"); element_out_str(o,36,a); fclose(o);
 int n=element_set_str(b,s,36); return element_cmp(a,b)||n!=(int)strlen(s); }
'''),
dict(id='sign-imaginary', property='C08', needs='a point over a quadratic extension whose ordinate has no real part',
 breaks='a point is not restored from its compressed encoding',
 edits=[E('arith/fieldquadratic.c', '  res = element_sign(r->x);\n  if (!res) return element_sign(r->y);\n  return res;', '  res = element_sign(r->x);\n  if (!res) return !element_is0(r->y);\n  return res;')],
 demo=PRE + r'''
int main(void){ mpz_t p,o; mpz_init_set_ui(p,103); mpz_init_set_ui(o,1); field_t f,g,c; field_init_fp(f,p); field_init_quadratic(g,f); element_t a,b,x,P,Q; element_init(a,g);element_init(b,g);element_init(x,g); element_set1(a); element_set1(b);
 field_init_curve_ab(c,a,b,o,NULL); element_init(P,c); element_init(Q,c); int n=0;
 for(int i=0;i<103;i++){ element_set_si(x,i); element_t t; element_init(t,g); element_square(t,x); element_add(t,t,a); element_mul(t,t,x); element_add(t,t,b); if(!element_is_sqr(t)) continue;
  curve_from_x(P,x); for(int k=0;k<2;k++){ unsigned char d[64]; element_to_bytes_compressed(d,P); element_from_bytes_compressed(Q,d); n++; if(element_cmp(P,Q)){ printf("x=%d\n",i); return 1;} element_neg(P,P);} }
 return n<50; }
'''),
]
