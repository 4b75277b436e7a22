/* Included last by every harness.  The harness has defined
 *   VF_INPUTS(X)            list of X(type, global)
 *   int  vf_pre(void)       the precondition (is_valid predicate) on the inputs
 *   void vf_setup(void)     derives ghost copies / concrete slices (may be empty)
 *   void vf_call(void)      calls the function under contract, VF_CHK()s its post natively
 *   VF_GEN (optional, native) void vf_gen(void) directed generator on top of random bytes
 */
#ifdef VF_SYM
#define VF_SYM1(T, n) vf_sym_obj(&n, sizeof(T), __COUNTER__);
#ifndef VF_HAS_SYM
static void vf_sym(void) {}
#endif
void harness(void) {
    VF_INPUTS(VF_SYM1)
    vf_sym();      /* imposes the ranges of the precondition by construction */
    vf_setup();
    vf_assume(vf_pre());
    vf_call();
}
#elif !defined(VF_NATIVE)
#define VF_HAVOC1(T, n) { T vf_tmp_##n; n = vf_tmp_##n; }
static void vf_havoc(void) { VF_INPUTS(VF_HAVOC1) }
void harness(void) {
    vf_havoc();
    vf_setup();
#ifdef VF_PLAIN
    __CPROVER_assume(vf_pre());
#endif
    vf_call();
#ifndef VF_NO_REACH
    __CPROVER_assert(0, "VF_REACH");
#endif
}
#else
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <setjmp.h>
static const char* vf_out_path;
static int vf_in_run;
static void vf_dump(const char* what) {
    FILE* f = vf_out_path ? fopen(vf_out_path, "w") : stderr;
    if (!f) return;
    fprintf(f, "# failed: %s\n", what);
#define VF_DUMP1(T, n) { fprintf(f, "%s ", #n); const unsigned char* p = (const unsigned char*)&vf_saved_##n; for (size_t i = 0; i < sizeof(T); i++) fprintf(f, "%02x", p[i]); fprintf(f, "\n"); }
#define VF_SAVED1(T, n) T vf_saved_##n;
    extern void vf_dump_all(FILE*);
    vf_dump_all(f);
    if (vf_out_path) fclose(f);
}
VF_INPUTS(VF_SAVED1)
void vf_dump_all(FILE* f) { VF_INPUTS(VF_DUMP1) }
static jmp_buf vf_jb;
static const char* vf_first_fail;
void vf_check_fail(const char* what) { if (!vf_first_fail) vf_first_fail = what; }
static void vf_death(void) { if (vf_in_run) { vf_dump("sanitizer report (memory safety / undefined behaviour)"); } }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

#ifndef VF_HAS_FILL
static void vf_fill(void) {}
#endif
#ifndef VF_HAS_GEN
#ifdef VF_HAS_SYM
static void vf_gen(void) {
    vf_fill();   /* plausible values for floating-point state */
    {   int id = 0, v; /* input bits pinned by the failed obligation */
#define VF_PATCH1(T, n) { unsigned char* p = (unsigned char*)&n; for (int h = 0; h < vf_nhint; h++) if (!strcmp(vf_hint[h].k, "in") && vf_hint[h].a == id) { \
        size_t o = (size_t)vf_hint[h].b + vf_hint[h].c / 8; unsigned char m = (unsigned char)(1 << (vf_hint[h].c % 8)); \
        if (o < sizeof(T)) p[o] = (unsigned char)(vf_hint[h].v ? p[o] | m : p[o] & ~m); } id++; }
        VF_INPUTS(VF_PATCH1)
    }
    vf_sym();
}
#else
static void vf_gen(void) {}
#endif
#endif
static void vf_load_hints(const char* f) {
    FILE* h = fopen(f, "r");
    while (h && vf_nhint < 4096 && fscanf(h, "%7s %d %d %d %d", vf_hint[vf_nhint].k, &vf_hint[vf_nhint].a, &vf_hint[vf_nhint].b, &vf_hint[vf_nhint].c, &vf_hint[vf_nhint].v) == 5) vf_nhint++;
    if (h) fclose(h);
}
static int vf_once(void) {
#define VF_SAVE1(T, n) memcpy(&vf_saved_##n, &n, sizeof(T));
    vf_setup();
    VF_INPUTS(VF_SAVE1)
    if (!vf_pre()) return 77;
    vf_first_fail = 0;
    vf_in_run = 1;
    vf_call();
    vf_in_run = 0;
    if (vf_first_fail) { printf("POST FAILED: %s\n", vf_first_fail); vf_dump(vf_first_fail); return 1; }
    return 0;
}
#ifdef VF_TRACE
static float vf_bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static void vf_load_trace(void) {
#include "vf_trace_inputs.h"
}
#endif
static int vf_hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main(int argc, char** argv) {
    setvbuf(stdout, 0, _IOLBF, 0);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vf_death);
    const char* mode = argc > 1 ? argv[1] : "search";
    if (getenv("VF_HINTS")) vf_load_hints(getenv("VF_HINTS"));
#ifdef VF_TRACE
    if (!strcmp(mode, "trace")) { vf_out_path = argc > 2 ? argv[2] : 0; vf_load_trace(); return vf_once(); }
#endif
    if (!strcmp(mode, "file")) {
        FILE* f = fopen(argv[2], "r");
        static char line[1 << 20];
        if (!f) return 2;
        while (fgets(line, sizeof line, f)) {
            char* sp = strchr(line, ' ');
            if (line[0] == '#' || !sp) continue;
            *sp = 0;
#define VF_LOAD1(T, n) if (!strcmp(line, #n)) { unsigned char* p = (unsigned char*)&n; for (size_t i = 0; i < sizeof(T) && sp[1 + 2 * i] > ' '; i++) p[i] = (unsigned char)(vf_hexv(sp[1 + 2 * i]) * 16 + vf_hexv(sp[2 + 2 * i])); }
            VF_INPUTS(VF_LOAD1)
        }
        fclose(f);
        return vf_once();
    }
    /* search <seed> <seconds> <out> */
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    double secs = argc > 3 ? atof(argv[3]) : 1.0;
    vf_out_path = argc > 4 ? argv[4] : 0;
    vf_s = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
    for (int i = 0; i < 20; i++) vf_rnd();
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    unsigned long n = 0, ok = 0;
    for (;;) {
#define VF_RND1(T, n) { unsigned char* p = (unsigned char*)&n; for (size_t i = 0; i < sizeof(T); i++) p[i] = (unsigned char)vf_rnd(); }
        VF_INPUTS(VF_RND1)
        vf_gen();
        int r = vf_once();
        n++;
        if (r == 0) ok++;
        if (r == 1) { printf("SEARCH n=%lu ok=%lu FOUND\n", n, ok); return 1; }
        if ((n & 15) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
        }
    }
    printf("SEARCH n=%lu ok=%lu\n", n, ok);
    return 0;
}
#endif
