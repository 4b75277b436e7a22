/* Verification stand-in for <math.h> (goto-cc only).
 * VF_UFMATH: libm calls are uninterpreted functions of their argument (equality proofs).
 * otherwise: libm calls return an arbitrary float (safety / integer proofs): the argument is not kept,
 * so its float circuit is sliced away.  fabsf/floorf/ceilf keep CBMC's exact models. */
#ifndef VF_MATH_H
#define VF_MATH_H
#define M_PI 3.14159265358979323846
#define M_SQRT2 1.41421356237309504880
float fabsf(float);
float floorf(float);
float ceilf(float);
double fabs(double);
double floor(double);
#ifdef VF_UFMATH
float __CPROVER_uninterpreted_cosf(float);
float __CPROVER_uninterpreted_sinf(float);
float __CPROVER_uninterpreted_exp2f(float);
float __CPROVER_uninterpreted_log2f(float);
float __CPROVER_uninterpreted_sqrtf(float);
float __CPROVER_uninterpreted_expf(float);
float __CPROVER_uninterpreted_powf(float, float);
float __CPROVER_uninterpreted_fmodf(float, float);
#define cosf(x) __CPROVER_uninterpreted_cosf(x)
#define sinf(x) __CPROVER_uninterpreted_sinf(x)
#define exp2f(x) __CPROVER_uninterpreted_exp2f(x)
#define log2f(x) __CPROVER_uninterpreted_log2f(x)
#define sqrtf(x) __CPROVER_uninterpreted_sqrtf(x)
#define expf(x) __CPROVER_uninterpreted_expf(x)
#define powf(x, y) __CPROVER_uninterpreted_powf(x, y)
#define fmodf(x, y) __CPROVER_uninterpreted_fmodf(x, y)
#else
float vf_nondet_float(void);
#define VF_F1(x) ((void)(x), vf_nondet_float())
#define cosf(x) VF_F1(x)
#define sinf(x) VF_F1(x)
#define exp2f(x) VF_F1(x)
#define log2f(x) VF_F1(x)
#define expf(x) VF_F1(x)
#define sqrtf(x) VF_F1(x)
#define powf(x, y) ((void)(x), VF_F1(y))
#define fmodf(x, y) ((void)(x), VF_F1(y))
#endif
#endif
