/* C22 (native side): two threads with decoders of their own, running freely and in alternation, must each produce what the
 * same calls produce alone; a thread sanitizer watches for shared memory.  Input: one seed, from which both histories follow. */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mbelib-neo/mbelib.h"
#ifdef VF_TSAN
const char* __tsan_default_options(void) { return "halt_on_error=1:exitcode=66"; }
#endif
enum { STEPS = 14 };
typedef struct { uint64_t seed, hash[STEPS + 1]; int steps, id, lock; } job_t;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int turn, finished[2];
static pthread_barrier_t bar;
static uint32_t rnd(uint64_t* s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return (uint32_t)(*s >> 16); }
static uint64_t fold(uint64_t h, const void* p, size_t n) { const unsigned char* c = p; while (n--) h = (h ^ *c++) * 1099511628211ull; return h; }
static uint64_t fold_parms(uint64_t h, const mbe_parms* m) { return fold(h, m, sizeof *m); }
typedef struct { mbe_parms c, p, e; } st_t;
static void bits(uint64_t* s, char* b, int n) { for (int i = 0; i < n; i++) b[i] = (char)(rnd(s) & 1); }
static uint64_t step(uint64_t* s, st_t* st, uint64_t h, int id) {
    float f[160]; short sh[160]; char err[200]; int errs = (int)(rnd(s) % 4), errs2 = (int)(rnd(s) % 12), r = 0;
    char fr[8][24], d[88]; st_t* x;
    static const char tone[14] = {1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1};
    memset(f, 0, sizeof f); memset(sh, 0, sizeof sh); memset(err, 0, sizeof err); memset(d, 0, sizeof d);
    bits(s, &fr[0][0], sizeof fr); bits(s, d, 88);
    if (rnd(s) % 4 == 0) memcpy(d, tone, 14);
    int k = (int)(rnd(s) % 22);
    x = &st[k % 4];
    switch (k) {
    case 0: mbe_processAmbe2400Dataf(f, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 1: mbe_processAmbe2450Dataf(f, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 2: case 3: mbe_processImbe4400Dataf(f, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 4: mbe_processAmbe2400Data(sh, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 5: mbe_processAmbe2450Data(sh, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 6: case 7: mbe_processImbe4400Data(sh, &errs, &errs2, err, d, &x->c, &x->p, &x->e, 3); break;
    case 8: mbe_processAmbe3600x2400Framef(f, &errs, &errs2, err, (char(*)[24])fr, d, &x->c, &x->p, &x->e, 3); break;
    case 9: mbe_processAmbe3600x2450Framef(f, &errs, &errs2, err, (char(*)[24])fr, d, &x->c, &x->p, &x->e, 3); break;
    case 10: mbe_processImbe7200x4400Framef(f, &errs, &errs2, err, (char(*)[23])fr, d, &x->c, &x->p, &x->e, 3); break;
    case 11: mbe_processImbe7100x4400Framef(f, &errs, &errs2, err, (char(*)[24])fr, d, &x->c, &x->p, &x->e, 3); break;
    case 12: mbe_synthesizeTonef(f, d, &x->c); break;
    case 13: mbe_synthesizeTonefdstar(f, d, &x->c, (int)(rnd(s) % 130)); break;
    case 14: mbe_synthesizeComfortNoisef(f); break;
    case 15: mbe_synthesizeComfortNoise(sh); break;
    case 16: mbe_setThreadRngSeed(rnd(s)); break;
    case 17: { char w[23], v[23]; bits(s, w, 23); r = mbe_golay2312(w, v); h = fold(h, v, 23); r += mbe_hamming1511(w, v); h = fold(h, v, 15); r += mbe_7100x4400hamming1511(w, v); h = fold(h, v, 15); break; }
    case 18: r = mbe_decodeAmbe2450Parms(d, &x->c, &x->p); break;
    case 19: r = mbe_decodeAmbe2400Parms(d, &x->c, &x->p); break;
    case 20: r = mbe_decodeImbe4400Parms(d, &x->c, &x->p); break;
    default: mbe_synthesizeSpeechf(f, &x->c, &x->p, 3); mbe_floattoshort(f, sh); break;
    }
    h = fold(h, f, sizeof f); h = fold(h, sh, sizeof sh); h = fold(h, err, sizeof err); h = fold(h, d, sizeof d); h = fold(h, &errs, 4); h = fold(h, &errs2, 4); h = fold(h, &r, 4);
    return fold_parms(fold_parms(fold_parms(h, &x->c), &x->p), &x->e);
}
static void* run(void* a) {
    job_t* j = a; uint64_t s = j->seed, h = 1469598103934665603ull;
    st_t* st = calloc(4, sizeof *st);
    if (j->lock == 1) pthread_barrier_wait(&bar);
    mbe_setThreadRngSeed((uint32_t)s);
    for (int i = 0; i < 4; i++) mbe_initMbeParms(&st[i].c, &st[i].p, &st[i].e);
    for (int i = 0; i < STEPS; i++) {
        if (j->lock == 2) {
            pthread_mutex_lock(&mu);
            while (turn != j->id && !finished[!j->id]) pthread_cond_wait(&cv, &mu);
        }
        h = step(&s, st, h, j->id);
        j->hash[i] = h;
        if (j->lock == 2) {
            if (rnd(&s) & 1) turn = !j->id;
            pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu);
        } else rnd(&s);
    }
    if (j->lock == 2) { pthread_mutex_lock(&mu); finished[j->id] = 1; turn = !j->id; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
    free(st);
    return 0;
}
static void go(job_t* j, int mode) {
    pthread_t t[2];
    pthread_barrier_init(&bar, 0, 2); turn = 0; finished[0] = finished[1] = 0;
    for (int i = 0; i < 2; i++) { j[i].lock = mode; pthread_create(&t[i], 0, run, &j[i]); if (!mode) pthread_join(t[i], 0); }
    if (mode) for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&bar);
}
/* in a process of its own: per-process state must still be fresh when the threads meet */
static int trial1(uint64_t seed) {
    job_t r[3][2]; int first = (int)(seed & 1);
    memset(r, 0, sizeof r);
    for (int m = 0; m < 3; m++) for (int i = 0; i < 2; i++) {
        r[m][i].seed = seed * 2654435761u + 0x9e3779b97f4a7c15ull * (uint64_t)(i + 1); r[m][i].id = i;
        for (int k = 0; k < 10; k++) rnd(&r[m][i].seed);
    }
    go(r[1 + first], 1 + first); go(r[2 - first], 2 - first); go(r[0], 0);
    for (int m = 1; m < 3; m++) for (int i = 0; i < 2; i++) for (int k = 0; k < STEPS; k++) if (r[m][i].hash[k] != r[0][i].hash[k]) {
        printf("VF_CHK failed: thread %d, call %d differs from the same history run alone (%s)\n", i, k, m == 1 ? "concurrent" : "alternating");
        return 1;
    }
    return 0;
}
static int trial(uint64_t seed) {
    int st = 0; pid_t p;
    fflush(stdout); p = fork();
    if (p == 0) { int r = trial1(seed); fflush(stdout); exit(r); }
    if (p < 0 || waitpid(p, &st, 0) < 0) return 0;
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
int main(int argc, char** argv) {
    char line[200];
    if (argc > 4 && !strcmp(argv[1], "search")) {
        uint64_t seed = strtoull(argv[2], 0, 10) * 1000003u; double secs = atof(argv[3]); long n = 0; struct timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        do {
            FILE* f = fopen(argv[4], "w"); fprintf(f, "seed %llu\n", (unsigned long long)(seed + (uint64_t)n)); fclose(f);
            if (trial(seed + (uint64_t)n)) { printf("SEARCH n=%ld ok=%ld\n", n, n); return 1; }
            n++; clock_gettime(CLOCK_MONOTONIC, &b);
        } while ((double)(b.tv_sec - a.tv_sec) + 1e-9 * (double)(b.tv_nsec - a.tv_nsec) < secs);
        unlink(argv[4]);
        printf("SEARCH n=%ld ok=%ld\n", n, n);
        return 0;
    }
    if (argc > 2 && !strcmp(argv[1], "file")) {
        FILE* f = fopen(argv[2], "r");
        while (f && fgets(line, sizeof line, f)) if (!strncmp(line, "seed ", 5)) {
            uint64_t seed = strtoull(line + 5, 0, 10);
            for (int k = 0; k < 20; k++) if (trial(seed)) return 1;
        }
    }
    return 0;
}
