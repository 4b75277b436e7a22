/* Common layer of every harness.
 *
 * Three build modes, one source:
 *   (default)   goto-cc + goto-instrument --dfcc : contracts enforced / replaced
 *   VF_PLAIN    goto-cc, no DFCC: assume(pre); call; assert(post)   (same obligations, no frame)
 *   VF_NATIVE   gcc -fsanitize=address,undefined : replay of a counterexample / input search
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#if defined(VF_NATIVE)
#define VF_RET vf_ret
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_assigns(...)
void vf_check_fail(const char* what);
#define VF_CHK(e, label) do { if (!(e)) vf_check_fail(label); } while (0);
#define VF_CONTRACT(decl, pre, POST, ASSIGNS) decl;
#define VF_ASSERT(e, label) VF_CHK(e, label)
#define VF_ASSUME(e)
#define VF_STUB(f) __wrap_##f
#elif defined(VF_SYM)
/* executed by lib/irsym.py over the LLVM IR of the real sources */
void vf_sym_obj(void* p, unsigned long n, int id);
int vf_sym_bit(int id, int i);
int vf_sym_range(int id, int lo, int hi);
void vf_prove(int c, const char* label);
void vf_assume(int c);
int vf_samef(float a, float b);
int vf_task_(int i);
void* vf_static(const char* name);   /* mutable static object of the library, 0 if there is none of that name */
#define vf_task(i, lo, hi) vf_task_(i)
float vf_sym_float_(int id);
void* vf_new(unsigned long n);        /* fresh object of n bytes, content indeterminate */
/* v as a linear form of input atoms (not linear: NaN): coefficient of x; bound on the accumulated rounding error for |inputs| <= 1 */
double vf_coef(float v, float x);
double vf_roundoff(float v);
void vf_heapbase(int n);             /* objects made by vf_new start n bytes after a multiple of 64 */
/* value ranges (linear forms over ranged inputs with rounding bounds) */
void vf_range(float x, double lo, double hi);      /* input x lies in [lo,hi] */
void vf_group(float x, int i);                     /* x belongs to the group in the cases with value >= i ... */
void vf_note(const char* s, double a, double b, double c);
void vf_group_range(double lo, double hi, double osc);   /* ... whose members lie in [lo,hi] and differ by at most osc */
void vf_cases(int id, int lo, int hi);             /* bounds are computed per value of vf_sym_range(id, lo, hi) */
int vf_known(int v);   /* v, simplified under the path condition */
double vf_least(float v); double vf_most(float v); /* bounds of v; of the difference of any two of the n floats at p: */
double vf_spread(const float* p, int n);
void vf_real(int on);                /* identity of float values up to rounding: same polynomial over the reals */
void vf_push(int n);                 /* distribute float operators over up to n cases */
void vf_seal(int n);                 /* operands of sums with more than n cases become opaque terms */
/* uninterpreted functions of n bytes (congruence is all that is known of them) */
void vf_uf_bits(int id, const char* in, int n, char* out, int m);
int vf_uf_int(int id, const char* in, int n, int bits);
#define vf_sym_float(id, lo, hi) vf_sym_float_(id)
#define VF_STUB(f) vf_stub_##f
#define VF_RET vf_ret
#define VF_CHK(e, label) vf_prove((e) != 0, label);
#define VF_CONTRACT(decl, pre, POST, ASSIGNS) decl;
#define VF_ASSERT(e, label) VF_CHK(e, label)
#define VF_ASSUME(e) vf_assume((e) != 0);
#elif defined(VF_PLAIN)
#define VF_RET vf_ret
#define VF_CHK(e, label) __CPROVER_assert((e), label);
#define VF_CONTRACT(decl, pre, POST, ASSIGNS) decl;
#define VF_ASSERT(e, label) VF_CHK(e, label)
#define VF_ASSUME(e) __CPROVER_assume(e);
#else
#define VF_RET __CPROVER_return_value
#define VF_ENS_(e, label) __CPROVER_ensures(e)
#define VF_CONTRACT(decl, pre, POST, ASSIGNS) decl __CPROVER_requires(pre) POST(VF_ENS_) ASSIGNS;
#define VF_CHK(e, label)
#define VF_ASSERT(e, label) __CPROVER_assert((e), label);
#define VF_ASSUME(e)
#endif

#ifdef VF_NATIVE
#include <stdio.h>
static uint64_t vf_s = 88172645463325252ull;
static inline uint32_t vf_rnd(void) { vf_s ^= vf_s << 13; vf_s ^= vf_s >> 7; vf_s ^= vf_s << 17; return (uint32_t)(vf_s >> 16); }
static inline float vf_rndf(float lo, float hi) { return lo + (hi - lo) * (float)(vf_rnd() & 0xffffff) / 16777216.0f; }
static inline void vf_rndbits(char* b, int n) { for (int i = 0; i < n; i++) b[i] = (char)(vf_rnd() & 1); }
#endif

#ifdef VF_NATIVE
/* the symbolic-input primitives become the native generator; a hint file (from a failed obligation) pins values */
static struct { char k[8]; int a, b, c, v; } vf_hint[4096];
static int vf_nhint;
static inline int vf_find(const char* k, int a, int b, int* v) {
    for (int i = 0; i < vf_nhint; i++) if (vf_hint[i].a == a && vf_hint[i].b == b && !strcmp(vf_hint[i].k, k)) { *v = vf_hint[i].v; return 1; }
    return 0;
}
static inline int vf_task(int i, int lo, int hi) { int v; return vf_find("task", i, 0, &v) ? v : lo + (int)(vf_rnd() % (unsigned)(hi - lo + 1)); }
static inline int vf_sym_bit(int id, int i) { int v; return vf_find("bit", id, i, &v) ? v : (int)(vf_rnd() & 1); }
static inline int vf_sym_range(int id, int lo, int hi) {
    int r = lo + (int)(vf_rnd() % (unsigned)(hi - lo + 1)), any = 0, x = r - lo, v;
    for (int i = 0; i < 31; i++) if (vf_find("rng", id, i, &v)) { any = 1; x = (x & ~(1 << i)) | (v << i); }
    return any ? (x > hi - lo ? hi : lo + x) : r;
}
static inline float vf_sym_float(int id, float lo, float hi) { (void)id; return vf_rndf(lo, hi); }
#endif

/* equality of two floats: provers use identity of the values; the native oracle allows rounding differences */
#ifdef VF_SYM
#define VF_SAMEF(a, b) vf_samef(a, b)
#elif defined(VF_NATIVE)
static inline int vf_samef_(float a, float b) {
    float d = a - b, m;
    if (*(unsigned*)&a == *(unsigned*)&b) return 1;
    if (a != a || b != b) return a != a && b != b;
    d = d < 0 ? -d : d; m = (a < 0 ? -a : a) + (b < 0 ? -b : b);
    return d <= 1e-3f + 2e-4f * m;
}
#define VF_SAMEF(a, b) vf_samef_(a, b)
#else
static inline int vf_samef_(float a, float b) { return *(unsigned*)&a == *(unsigned*)&b; }
#define VF_SAMEF(a, b) vf_samef_(a, b)
#endif

#ifdef VF_SYM
#define VF_REAL vf_real(1);
#else
#define VF_REAL
#endif

/* contract of a callee that is *used* (replaced) while verifying a caller */
#define VF_A(...) __CPROVER_assigns(__VA_ARGS__)

#if defined(VF_NATIVE)
#define VF_UF1(name) 
#endif

static inline int vf_pop(unsigned x, int n) { int c = 0; for (int i = 0; i < n; i++) c += (int)((x >> i) & 1u); return c; }
static inline unsigned vf_pack(const char* b, int n) { unsigned r = 0; for (int i = 0; i < n; i++) r |= (unsigned)(b[i] & 1) << i; return r; }
static inline int vf_bits01(const char* b, int n) { int ok = 1; for (int i = 0; i < n; i++) ok &= (b[i] == 0) | (b[i] == 1); return ok; }

typedef struct { char v[7]; } vf_c7;
typedef struct { char v[15]; } vf_c15;
typedef struct { char v[23]; } vf_c23;
typedef struct { char v[24]; } vf_c24;
typedef struct { char v[49]; } vf_c49;
typedef struct { char v[88]; } vf_c88;
typedef struct { char v[96]; } vf_c96;   /* ambe 4x24 */
typedef struct { char v[184]; } vf_c184; /* imbe 8x23 */
typedef struct { char v[168]; } vf_c168; /* imbe 7x24 */
typedef struct { char v[256]; } vf_c256;
typedef struct { float v[160]; } vf_f160;
typedef struct { short v[160]; } vf_s160;

#define VF_DECL_INPUT(T, n) T n;
#endif
