import os, runpy
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))['PRE']
E = lambda f, a, b: (f, a, b)
BUGS = [
dict(id='token-thousand', property='C12', needs='a parameter written with more than a thousand characters',
 breaks='a long number is read as a different number',
 edits=[E('ecc/param.c', '    buf[i] = c;\n    i++;\n    if (i == n) {', '    buf[i] = c;\n    if (i < 1000) i++;\n    if (i == n) {')],
 demo=PRE + r'''
int main(void){ static char t[8000], out[8000]; char d[2001]; memset(d,'7',2000); d[2000]=0;
 sprintf(t,"type a\nq %s\nh 12\nr 5\nexp2 2\nexp1 1\nsign1 -1\nsign0 1\n", d); pbc_param_t p; if (pbc_param_init_set_str(p,t)) return 1;
 FILE *f=fmemopen(out,7999,"w"); pbc_param_out_str(f,p); fclose(f); pbc_param_clear(p); return !strstr(out,d); }
'''),
dict(id='identity-print-one', property='C13', needs='printing the identity into a buffer of one byte',
 breaks='bounded printing writes beyond the given size',
 edits=[E('ecc/curve.c', '    status = snprintf(s, n, "O");', '    status = n ? snprintf(s, 2, "O") : 1;')],
 demo=PRE + r'''
int main(void){ mpz_t p; mpz_init_set_ui(p,59); field_t f,c; field_init_fp(f,p); element_t a,b,P; element_init(a,f); element_init(b,f); element_set1(a); element_set0(b);
 field_init_curve_ab(c,a,b,p,NULL); element_init(P,c); element_set0(P); char s[4]="xxx"; int r=element_snprint(s,1,P); return !(r==1 && s[0]==0 && s[1]=='x'); }
'''),
dict(id='poly-sub-longer', property='C03', needs='a difference stored over the second operand when that one is the longer',
 breaks='the high coefficients of the difference have the wrong sign',
 edits=[E('arith/poly.c', '    if (big == f) {\n      element_set(poly_coeff(diff, i)', '    if (big == f || diff == big) {\n      element_set(poly_coeff(diff, i)')],
 demo=PRE + r'''
#include <pbc_poly.h>
int main(void){ mpz_t p; mpz_init_set_ui(p,1009); field_t f,R; field_init_fp(f,p); field_init_poly(R,f); element_t a,b,c; element_init(a,R); element_init(b,R); element_init(c,R);
 element_set_si(a,5); poly_setx(b); element_sub(c,a,b); element_sub(b,a,b); return element_cmp(b,c)!=0; }
'''),
dict(id='pow-window-char', property='C05', needs='an exponent of more than nine thousand bits',
 breaks='the power is not the one repeated multiplication gives',
 edits=[E('arith/field.c', '  int word = 0;                 // the word to look up. 0<word<base\n  int wbits', '  signed char word = 0;         // the word to look up. 0<word<base\n  int wbits')],
 demo=PRE + r'''
int main(void){ mpz_t p,n,r; mpz_init_set_ui(p,1000003); mpz_init(n); mpz_init(r); field_t f; field_init_fp(f,p); element_t a,b; element_init(a,f); element_init(b,f); 
 mpz_setbit(n,9999); mpz_sub_ui(n,n,7); f->pow_mpz ? (void)0 : (void)0; element_set_si(a,3); field_t q; element_t x,y; field_init_quadratic(q,f); element_init(x,q); element_init(y,q); element_random(x); element_pow_mpz(y,x,n);
 element_t z; element_init(z,q); element_set1(z); for(long i=mpz_sizeinbase(n,2)-1;i>=0;i--){ element_mul(z,z,z); if(mpz_tstbit(n,i)) element_mul(z,z,x);} return element_cmp(y,z)!=0; }
'''),
dict(id='symtab-long-names', property='C18', needs='two names that agree in their first 31 characters',
 breaks='the value of another name is returned',
 edits=[E('misc/symtab.c', '    if (!strcmp(e->key, key)) return e->data;', '    if (!strncmp(e->key, key, 31)) return e->data;')],
 demo=PRE + r'''
#include "misc/symtab.h"
int main(void){ symtab_t t; symtab_init(t); const char *a="abcdefghijklmnopqrstuvwxyzabcdefg1", *b="abcdefghijklmnopqrstuvwxyzabcdefg2"; int x,y; symtab_put(t,&x,a); symtab_put(t,&y,b); return symtab_at(t,b)!=&y; }
'''),
dict(id='darray-copy-tight', property='C20', needs='copying into an array whose capacity is one less than the number of items',
 breaks='a store outside the storage of the destination',
 edits=[E('misc/darray.c', '    if (dst->max < src->count) darray_realloc', '    if (dst->max + 1 < src->count) darray_realloc')],
 demo=PRE + r'''
#include "misc/darray.h"
int main(void){ darray_t a,b; int i; darray_init(a); darray_init(b); for(i=0;i<a->max+1;i++) darray_append(b,&i); darray_copy(a,b); return a->max < a->count; }
'''),
dict(id='ternary-shift-carry', property='C16', needs='a ternary field of degree above 192',
 breaks='the product of two elements is wrong',
 edits=[E('arith/ternary_extension_field.c', '        l = h ? 1 : 0;', '        l = h && i < 2 ? 1 : 0;')],
 demo=PRE + r'''
#include <pbc_ternary_extension_field.h>
int main(void){ field_t f; field_init_gf3m(f,243,121); element_t a,b,c,d; element_init(a,f);element_init(b,f);element_init(c,f);element_init(d,f);
 for(int i=0;i<8;i++){ element_random(a); element_mul(b,a,a); element_mul(b,b,a); element_cubic(c,a); if(element_cmp(b,c)) return 1; } return 0; }
'''),
dict(id='multiz-deep-scalar', property='C15', needs='an integer added to a list nested two deep',
 breaks='adding an integer to a nested list does not change its constant term only',
 edits=[E('arith/multiz.c', '      while(z->type == T_ARR) z = darray_at(z->a, 0);\n      fun(z->z, b->z, z->z);', '      int top = 1;\n      while(z->type == T_ARR) { z = darray_at(z->a, top ? 0 : darray_count(z->a) - 1); top = 0; }\n      fun(z->z, b->z, z->z);')],
 demo=PRE + r'''
#include <pbc_z.h>
#include <pbc_multiz.h>
static element_ptr nu(field_ptr f, int c){ element_ptr a=malloc(sizeof(element_t)); element_init(a,f); element_set_si(a,c); return a; }
static element_ptr mk(field_ptr f, int c){ element_ptr l=multiz_new_list(nu(f,c)); multiz_append(l,nu(f,2)); element_ptr o=multiz_new_list(l); multiz_append(o,nu(f,3)); return o; }
int main(void){ field_t f; field_init_multiz(f); element_t r,k; element_init(r,f); element_init(k,f); element_set_si(k,5); element_add(r,mk(f,1),k); return element_cmp(r,mk(f,6))!=0; }
'''),
dict(id='z-bytes-two', property='C15', needs='an integer of more than 65535 bytes',
 breaks='a long integer is not restored from its encoding',
 edits=[E('arith/multiz.c', '    n += ((unsigned int) *ptr) << 8 * (3 - i);', '    n += (unsigned short) (*ptr << 8 * (3 - i));')],
 demo=PRE + r'''
#include <pbc_multiz.h>
int main(void){ field_t f; field_init_multiz(f); element_t a,b; element_init(a,f); element_init(b,f); mpz_t z; mpz_init(z); mpz_setbit(z,600000); mpz_setbit(z,3); element_set_mpz(a,z);
 int n=element_length_in_bytes(a); unsigned char *d=malloc(n+8); element_to_bytes(d,a); element_from_bytes(b,d); return element_cmp(a,b)!=0; }
'''),
]
