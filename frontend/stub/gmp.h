/* Declarations-only stand-in for GMP's <gmp.h>, used only when the sources of
 * /repo are lowered to LLVM IR for the verifier.  The real header expands
 * mpz_sgn/mpz_cmp_si/mpz_abs/... to inline code that looks inside mpz_t; here
 * each is an opaque function so that the verifier sees GMP calls only through
 * GMP's documented contract.
 */
#ifndef VERIF_GMP_H
#define VERIF_GMP_H
#include <stddef.h>
#include <stdio.h>
typedef struct { int _mp_alloc; int _mp_size; unsigned long *_mp_d; } __mpz_struct;
typedef __mpz_struct mpz_t[1];
typedef struct { __mpz_struct _mp_num; __mpz_struct _mp_den; } __mpq_struct;
typedef __mpq_struct mpq_t[1];
typedef unsigned long mp_limb_t;
typedef unsigned long mp_bitcnt_t;
typedef __mpz_struct *mpz_ptr;
typedef const __mpz_struct *mpz_srcptr;
#define __GNU_MP_VERSION 6
#define __GNU_MP_VERSION_MINOR 3
#define __GNU_MP_VERSION_PATCHLEVEL 0
void mpz_init(mpz_ptr); void mpz_clear(mpz_ptr);
void mpz_init_set(mpz_ptr, mpz_srcptr);
void mpz_set(mpz_ptr, mpz_srcptr); void mpz_set_si(mpz_ptr, long);
void mpz_set_ui(mpz_ptr, unsigned long); int mpz_set_str(mpz_ptr, const char *, int);
int mpz_fits_slong_p(mpz_srcptr); long mpz_get_si(mpz_srcptr);
int mpz_fits_ulong_p(mpz_srcptr); unsigned long mpz_get_ui(mpz_srcptr);
double mpz_get_d(mpz_srcptr); char *mpz_get_str(char *, int, mpz_srcptr);
void mpz_abs(mpz_ptr, mpz_srcptr); void mpz_neg(mpz_ptr, mpz_srcptr);
void mpz_swap(mpz_ptr, mpz_ptr);
void mpz_add(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_sub(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_add_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_sub_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_mul(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_mul_2exp(mpz_ptr, mpz_srcptr, mp_bitcnt_t);
void mpz_mul_si(mpz_ptr, mpz_srcptr, long); void mpz_mul_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_pow_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_addmul(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_addmul_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_submul(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_submul_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_gcd(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_lcm(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_divexact(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_divexact_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_tdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_tdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_cdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr); unsigned long mpz_cdiv_q_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_cdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_fdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr); void mpz_fdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
unsigned long mpz_fdiv_q_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_mod(mpz_ptr, mpz_srcptr, mpz_srcptr);
int mpz_sgn(mpz_srcptr); int mpz_cmp(mpz_srcptr, mpz_srcptr); int mpz_cmp_si(mpz_srcptr, long);
int mpz_cmp_ui(mpz_srcptr, unsigned long);
int mpz_cmpabs(mpz_srcptr, mpz_srcptr); int mpz_divisible_p(mpz_srcptr, mpz_srcptr);
size_t mpz_size(mpz_srcptr); mp_limb_t mpz_getlimbn(mpz_srcptr, size_t);
size_t mpz_sizeinbase(mpz_srcptr, int);
void *mpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
void mpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
void mp_get_memory_functions(void *(**)(size_t), void *(**)(void *, size_t, size_t), void (**)(void *, size_t));
#define mp_get_memory_functions mp_get_memory_functions
typedef __mpq_struct *mpq_ptr;
typedef const __mpq_struct *mpq_srcptr;
void mpq_init(mpq_ptr); void mpq_clear(mpq_ptr);
void mpq_set(mpq_ptr, mpq_srcptr); void mpq_set_ui(mpq_ptr, unsigned long, unsigned long);
void mpq_mul(mpq_ptr, mpq_srcptr, mpq_srcptr);
int mpq_cmp(mpq_srcptr, mpq_srcptr); int mpq_sgn(mpq_srcptr);
mpz_ptr mpq_numref_fn(mpq_ptr); mpz_ptr mpq_denref_fn(mpq_ptr);
#define mpq_numref(q) mpq_numref_fn(q)
#define mpq_denref(q) mpq_denref_fn(q)
#endif
