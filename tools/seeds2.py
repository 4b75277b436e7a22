import sys
from mkbug import make
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mbelib-neo/mbelib.h"
static unsigned rs=1; static unsigned rnd(void){ rs=rs*1664525u+1013904223u; return rs>>8; }
'''
only = sys.argv[1:]
def mk(id, *a, **k):
    if not only or id in only: make(id, *a, **k)
mk("imbe7200-c6count", "C04", [("src/imbe/imbe7200x4400.c", "        errs += hamming_errs;", "        errs += (i < 6) ? hamming_errs : 0;")],
   "an error in the sixth code vector only", "corrections in the last Hamming vector are missing from the error count", H + r'''
int main(void){ int bad=0; char fr[8][23],d[88]; for(int row=1;row<7;row++){ memset(fr,0,sizeof fr); fr[row][row<4?15:7]=1; if(mbe_eccImbe7200x4400Data(fr,d)!=1) bad++; } printf("%d rows miscounted\n",bad); return bad!=0; }
''')
mk("ambe2450-lm0", "C07", [("src/ambe/ambe3600x2450.c", "    prev_mp->log2Ml[0] = prev_mp->log2Ml[1];\n", "")],
   "a frame with more harmonics than the one before it, after a frame with non-zero log magnitudes", "prediction of the first harmonics uses a stale zeroth log magnitude", H + r'''
static void frame(char*d,int b0){ memset(d,0,49); for(int i=0;i<49;i++) d[i]=rnd()&1; for(int i=0;i<4;i++) d[i]=b0>>(6-i)&1; for(int i=0;i<3;i++) d[37+i]=b0>>(2-i)&1; }
int main(void){ int bad=0; for(int t=0;t<200;t++){ mbe_parms a,b,c,p1,p2; char d[49]; mbe_initMbeParms(&a,&b,&c); frame(d,20+rnd()%30); if(mbe_decodeAmbe2450Parms(d,&a,&b)) continue; 
 p1=a; p2=a; p2.log2Ml[0]=p1.log2Ml[1]; p2.Ml[0]=p1.Ml[1]; p1.log2Ml[0]=-77.0f; frame(d,80+rnd()%30); mbe_parms x=a,y=a; int r=mbe_decodeAmbe2450Parms(d,&x,&p1),s=mbe_decodeAmbe2450Parms(d,&y,&p2); if(r!=s) bad++; if(!r) for(int l=1;l<=x.L;l++) if(memcmp(&x.log2Ml[l],&y.log2Ml[l],4)) bad++; }
 printf("%d differences\n",bad); return bad!=0; }
''')
mk("dstar-gamma", "C08", [("src/ambe/ambe3600x2400.c", "cur_mp->gamma = deltaGamma + ((float)0.5 * prev_mp->gamma);", "cur_mp->gamma = deltaGamma + ((float)0.5 * cur_mp->gamma);")],
   "a caller whose current and previous states differ (states kept per channel, previous state restored)", "the gain predictor uses the state left in the output structure instead of the previous frame", H + r"""
int main(void){ int bad=0,n=0; for(int t=0;t<2000;t++){ mbe_parms a,b,c; char d[49]; mbe_initMbeParms(&a,&b,&c); for(int i=0;i<49;i++) d[i]=rnd()&1; mbe_parms x=a,y=a,p=b,q=b; p.gamma=q.gamma=4; x.gamma=4; y.gamma=1; if(mbe_decodeAmbe2400Parms(d,&x,&p)) continue; mbe_decodeAmbe2400Parms(d,&y,&q); n++; if(x.gamma!=y.gamma) bad++; } printf("%d of %d\n",bad,n); return bad!=0; }
""")
mk("imbe-rho24", "C09", [("src/imbe/imbe7200x4400.c", "} else if (cur_mp->L <= 24) {", "} else if (cur_mp->L < 24) {")],
   "a frame with exactly 24 harmonics and a previous frame with non-flat log magnitudes", "prediction coefficient 0.7 instead of 0.67 for L = 24", H + r'''
int main(void){ int bad=0,n=0; for(int b0=0;b0<208;b0++){ char d[88]; memset(d,0,88); for(int i=0;i<6;i++) d[i]=b0>>(7-i)&1; d[85]=b0>>1&1; d[86]=b0&1; mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); mbe_parms x=a,y=a,p=b,q=b; if(mbe_decodeImbe4400Parms(d,&x,&p)) continue; int L=x.L; q=b; q.L=L; p=b; p.L=L; for(int l=1;l<=L;l++) q.log2Ml[l]=(l&1)?8.0f:0.0f; mbe_decodeImbe4400Parms(d,&x,&p); mbe_decodeImbe4400Parms(d,&y,&q); double rho=(y.log2Ml[1]-x.log2Ml[1]-(y.log2Ml[2]-x.log2Ml[2]))/8.0; double want=L<=15?0.4:L<=24?0.03*L-0.05:0.7; n++; if(fabs(rho-want)>1e-4) bad++; } printf("%d of %d\n",bad,n); return bad!=0; }
''')
mk("ambe2450-badtone", "C10", [("src/ambe/ambe3600x2450.c", "} else if (!mbe_isMaxFrameRepeat(prev_mp)) {", "} else if (!mbe_isMaxFrameRepeat(cur_mp)) {")],
   "an invalid tone index after four counted repeats", "an invalid tone never falls back to comfort noise and reset", H + r'''
int main(void){ mbe_parms a,b,c; float o[160]; char s[64]; int e=0,z=0; char d[49]; memset(d,0,49); for(int i=0;i<6;i++) d[i]=1; /* tone class */ d[12]=d[13]=d[14]=d[15]=1; d[16]=d[17]=d[18]=1; d[19]=0; /* id 254 */
 mbe_initMbeParms(&a,&b,&c); mbe_processAmbe2450Dataf(o,&e,&z,s,d,&a,&b,&c,3); mbe_parms x=a; 
 if(strcmp(s,"T")) { printf("not a tone frame: %s\n",s); return 3; }
 b.repeatCount=4; c.L=20; c.gamma=3; mbe_processAmbe2450Dataf(o,&e,&z,s,d,&a,&b,&c,3); printf("L %d\n",c.L); return !(c.L==15 && c.gamma==0); }
''')
mk("dstar-tone-errs", "C11", [("src/ambe/ambe3600x2400.c", "(*errs < 2) && (*errs2 < 3)) {", "(*errs < 2) && (*errs2 <= 3)) {")],
   "a D-STAR tone frame with exactly three bit errors", "a tone with three errors is rendered instead of comfort noise and reset", H + r'''
int main(void){ mbe_parms a,b,c; float o[160]; char s[64]; int bad=0,n=0; for(int t=0;t<400000&&n<20;t++){ char d[49]; for(int i=0;i<49;i++) d[i]=rnd()&1; if(t&1) for(int i=0;i<6;i++) d[i]=1; mbe_initMbeParms(&a,&b,&c); mbe_parms q=b; int r=mbe_decodeAmbe2400Parms(d,&a,&q); if(r<7||r>122) continue; n++; int e=1,z=3; mbe_initMbeParms(&a,&b,&c); mbe_setThreadRngSeed(5); float w[160]; mbe_synthesizeComfortNoisef(w); mbe_setThreadRngSeed(5); mbe_processAmbe2400Dataf(o,&e,&z,s,d,&a,&b,&c,3); if(memcmp(w,o,sizeof o)) bad++; } printf("%d of %d\n",bad,n); return n==0?3:bad!=0; }
''')
mk("imbe-threshold-prev", "C12", [("src/imbe/imbe7200x4400.c", "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")],
   "a frame whose error count lies between the thresholds of the previous and the updated error rate", "frame repetition decided with last frame's error rate", H + r'''
extern void mbe_processImbe4400Dataf_withC0(float*,const int*,char*,const char*,mbe_parms*,mbe_parms*,mbe_parms*,int,int,int);
int main(void){ int bad=0; for(int e=8;e<16;e++) for(int k=0;k<200;k++){ mbe_parms a,b,c; float o[160]; char s[64],d[88]; memset(d,0,88); mbe_initMbeParms(&a,&b,&c); b.errorRate=k*0.0005f; float r=0.95f*b.errorRate+0.000365f*e; int want=(float)e>=10.0f+40.0f*r; mbe_processImbe4400Dataf_withC0(o,&e,s,d,&a,&b,&c,3,2,1); if((strchr(s,'R')!=0)!=want) bad++; } printf("%d wrong\n",bad); return bad!=0; }
''')
mk("imbe7100-short", "C13", [("src/imbe/imbe7100x4400.c", "    *errs2 = *errs;\n    *errs2 += mbe_eccImbe7100x4400DataInternal(imbe_fr, imbe_d, &errs_c4);", "    *errs2 = mbe_eccImbe7100x4400DataInternal(imbe_fr, imbe_d, &errs_c4);\n    *errs2 += (*errs2 > 0) ? *errs : 0;")],
   "a frame whose only errors are in the first vector", "the total leaves the first vector's errors out when nothing else was corrected", H + r'''
int main(void){ mbe_parms a,b,c; float o[160]; char s[64],d[88],fr[7][24]; int e,z,bad=0; for(int bit=12;bit<19;bit++){ memset(fr,0,sizeof fr); mbe_initMbeParms(&a,&b,&c); unsigned short p[101]; p[0]=0; for(int i=1;i<101;i++) p[i]=173*p[i-1]+13849; int k=1; for(int j=23;j>=0;j--) fr[1][j]=p[k++]>>15; for(int i=2;i<4;i++)for(int j=22;j>=0;j--)fr[i][j]=p[k++]>>15; for(int i=4;i<6;i++)for(int j=14;j>=0;j--)fr[i][j]=p[k++]>>15; fr[0][bit]=1; mbe_processImbe7100x4400Framef(o,&e,&z,s,fr,d,&a,&b,&c,3); if(e!=1||z!=1) bad++; } printf("%d wrong totals\n",bad); return bad!=0; }
''')
mk("simd-clampb", "C14", [("src/core/mbelib.c", "        b = _mm_min_ps(_mm_max_ps(b, vminv), vmaxv);", "        b = _mm_min_ps(b, vmaxv);")],
   "the SIMD build; a strongly negative sample in the upper half of a group of eight", "negative clipping is missing in half of the SIMD conversion", H + r'''
int main(void){ int bad=0; float f[160]; short o[160]; for(int t=0;t<100;t++){ for(int i=0;i<160;i++) f[i]=((int)(rnd()%20001)-10000)*0.97f; mbe_floattoshort(f,o); for(int i=0;i<160;i++){ float x=7.0f*f[i],m=32767.0f*0.95f; x=x>m?m:x<-m?-m:x; if(o[i]!=(short)x) bad++; } } printf("%d samples differ\n",bad); return bad!=0; }
''', extra="-DMBELIB_ENABLE_SIMD=1 -msse2")
mk("tone-step", "C15", [("src/core/mbelib.c", "return (uint32_t)(step + 0.5);", "return (uint32_t)step;")],
   "a dual-tone index whose phase step has a fraction of one half or more; drifts over many frames", "phase increments are truncated instead of rounded", H + r'''
int main(void){ int bad=0; char d[49]; memset(d,0,49); int id=129; for(int i=0;i<8;i++) d[12+i]=id>>(7-i)&1; mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); float o[160]; mbe_synthesizeTonef(o,d,&a); unsigned w1=160u*(unsigned)(1209.0/8000*4294967296.0+0.5), w2=160u*(unsigned)(697.0/8000*4294967296.0+0.5); bad=(unsigned)a.swn!=w1||(unsigned)a.un!=w2; printf("%u %u %d %d\n",w1,w2,a.swn,a.un); return bad; }
''')
mk("noise-seed-once", "C16", [("src/core/mbe_unvoiced_fft.c", "            mbe_unvoiced_seed_override = 0;\n", "")],
   "two decoder states started on one thread after one seed", "every later start-up reuses the seed instead of the default 3147", H + r'''
#include "mbe_unvoiced_fft.h"
int main(void){ float b[256],s1=-1,s2=-1,o[96]; mbe_setThreadRngSeed(777); mbe_generate_noise_with_overlap(b,&s1,o); mbe_generate_noise_with_overlap(b,&s2,o); printf("%g %g\n",s1,s2); return !(s1==777.0f&&s2==3147.0f); }
''')
mk("smooth-rm0-stale", "C17", [("src/core/mbe_adaptive.c", "        mbe_pre_enh_rm0_valid = 0;\n        mbe_pre_enh_owner = NULL;\n    } else {\n        /* Fallback", "        mbe_pre_enh_owner = (errorTotal > 6) ? cur_mp : NULL;\n    } else {\n        /* Fallback")],
   "a frame with more than six errors whose state is smoothed again later without enhancement (repeat after an invalid tone)", "the energy hand-over is used twice", H + r'''
#include "mbe_adaptive.h"
int main(void){ mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); for(int l=1;l<=a.L;l++) a.Ml[l]=200.0f; mbe_spectralAmpEnhance(&a); a.errorCountTotal=8; mbe_applyAdaptiveSmoothing(&a,&b); for(int l=1;l<=a.L;l++) a.Ml[l]=10.0f; mbe_parms p=b; p.localEnergy=75000; mbe_applyAdaptiveSmoothing(&a,&p); float w=0.95f*75000.0f+0.05f*(100.0f*a.L); printf("%g %g\n",a.localEnergy,w); return fabsf(a.localEnergy-w)>1.0f; }
''')
mk("enhance-low8", "C18", [("src/core/mbelib.c", "if ((8 * l) <= L) {", "if ((8 * l) < L) {")],
   "a frame whose harmonic count is a multiple of eight", "harmonic L/8 is weighted although it must stay unweighted", H + r'''
int main(void){ int bad=0; for(int L=9;L<=56;L++){ mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); a.L=L; a.w0=3.0f/L; for(int l=1;l<=L;l++) a.Ml[l]=(l==L/8)?9.0f:1.0f; mbe_parms x=a; mbe_spectralAmpEnhance(&x); float g=0; if(L/8>=1){ if(L/8>=2){ g=x.Ml[1]/a.Ml[1]; if(fabsf(x.Ml[L/8]/a.Ml[L/8]-g)>1e-4f) bad++; } } } printf("%d harmonic counts wrong\n",bad); return bad!=0; }
''')
mk("synth-interp-ref", "C19", [("src/core/mbelib.c", "(fabsf(cw0 - pw0) < (0.1f * cw0));", "(fabsf(cw0 - pw0) < (0.1f * pw0));")],
   "consecutive voiced frames whose pitch falls by between 9.1 and 10 percent", "the stable-pitch decision uses the previous pitch", H + r'''
int main(void){ mbe_parms a,b,c; float o1[160]; int bad=0; float r[]={0.905f,0.908f,1.105f}; for(int k=0;k<3;k++){ mbe_initMbeParms(&a,&b,&c); a.L=b.L=20; b.w0=0.15f; a.w0=0.15f*r[k]; for(int l=1;l<=56;l++){ a.Vl[l]=b.Vl[l]=1; a.Ml[l]=b.Ml[l]=l==3?100.0f:0.0f; } mbe_synthesizeSpeechf(o1,&a,&b,3); 
  /* harmonic 3 only, phases: compare with linear interpolation of amplitude (constant 100): first sample is 2*100*cos(PHI prev = 0) = 200 either way; energy of sample 80: interpolation keeps amplitude 200, crossfade of two phases does not */
  int interp = fabsf(a.w0-b.w0) < 0.1f*a.w0; double ph=0, err=0; float dphi=a.PHIl[3]-0-(b.w0+a.w0)*480/2; float dw=(dphi-2*(float)M_PI*floorf((dphi+(float)M_PI)/(2*(float)M_PI)))/160; for(int n=0;n<160;n++){ float th=(b.w0*3+dw)*n+(a.w0-b.w0)*3*n*n/320; err+=fabs(o1[n]-200*cos(th)); } if((err<20.0)!=interp) {bad++;} printf("ratio %g interp %d err %g\n",r[k],interp,err); } return bad!=0; }
''')
mk("plan-no-retry", "C19", [("src/core/mbelib.c", "    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    return mbe_fft_plan_instance;", "    static MBE_THREAD_LOCAL int tried = 0;\n    if (!tried) {\n        tried = 1;\n        mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    }\n    return mbe_fft_plan_instance;")],
   "an allocation failure on the thread's first synthesised frame", "the thread stays without unvoiced sound for ever after one failed allocation", H + r'''
#include <dlfcn.h>
static int fail=0; void* __real_malloc(size_t); void* __wrap_malloc(size_t n){ return fail?0:__real_malloc(n); } void* __real_aligned_alloc(size_t,size_t); void* __wrap_aligned_alloc(size_t a,size_t n){ return fail?0:__real_aligned_alloc(a,n); } int __real_posix_memalign(void**,size_t,size_t); int __wrap_posix_memalign(void**p,size_t a,size_t n){ return fail?12:__real_posix_memalign(p,a,n); }
int main(void){ mbe_parms a,b,c; float o[160]; mbe_initMbeParms(&a,&b,&c); for(int l=1;l<57;l++) a.Ml[l]=b.Ml[l]=100; double s=0; for(int f=0;f<6;f++){ fail=f==0; mbe_synthesizeSpeechf(o,&a,&b,3); fail=0; b=a; } for(int i=0;i<160;i++) s+=fabs(o[i]); printf("%g\n",s); return !(s>1.0); }
''', extra="-Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=posix_memalign")
mk("simd-bandsum", "C20", [("src/core/mbe_unvoiced_fft.c", "            shuf = _mm_shuffle_ps(sums, sums, _MM_SHUFFLE(0, 1, 2, 3));\n            sums = _mm_add_ps(sums, shuf);\n            sum +=", "            shuf = _mm_shuffle_ps(sums, sums, _MM_SHUFFLE(2, 3, 0, 1));\n            sums = _mm_add_ps(sums, shuf);\n            sum +=")],
   "the SIMD build and an unvoiced band at least four bins wide", "the band energy counts half of the bins twice and the others not at all, so bands get the wrong level", H + r"""
#include "mbe_unvoiced_fft.h"
int main(void){ mbe_fft_plan* p=mbe_fft_plan_alloc(); int bad=0; mbe_parms a,b,c; for(int t=0;t<200;t++){ mbe_initMbeParms(&a,&b,&c); a.w0=0.2f; a.L=14; for(int l=1;l<=14;l++){ a.Ml[l]=l==5?50:0; a.Vl[l]=l!=5; } float m=256.0f/(2*(float)M_PI)*a.w0; int lo=ceilf(4.5f*m),hi=ceilf(5.5f*m); float noise[256],out[160]; for(int i=0;i<256;i++) noise[i]=(float)(rnd()%53125); memset(out,0,sizeof out); mbe_synthesizeUnvoicedFFTWithNoise(out,&a,&b,p,noise); double e=0; for(int k=lo;k<hi;k++){ double re=0,im=0; for(int i=0;i<256;i++){ re+=a.previousUw[i]*cos(2*M_PI*k*i/256); im+=a.previousUw[i]*sin(2*M_PI*k*i/256);} e+=re*re+im*im; } double rms=sqrt(e/(hi-lo)); if(fabs(rms/(146.17696*50)-1)>1e-3) bad++; } printf("%d of 200 bands have the wrong level\n",bad); return bad!=0; }
""", extra="-DMBELIB_ENABLE_SIMD=1 -msse2")
mk("plan-oom-leak", "C20", [("src/core/mbe_unvoiced_fft.c", "    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {\n        mbe_fft_plan_free(plan);", "    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {\n        if (!plan->work) {\n            pffft_destroy_setup(plan->setup);\n            plan->setup = NULL;\n        } else\n            mbe_fft_plan_free(plan);")],
   "the very last allocation of the plan failing", "every block of a half-made plan is leaked", H + r'''
#include "mbe_unvoiced_fft.h"
static int left=-1,live=0; void* __real_malloc(size_t); void __real_free(void*); void* __wrap_malloc(size_t n){ if(left==0) return 0; if(left>0) left--; live++; return __real_malloc(n); } void __wrap_free(void*p){ if(p) live--; __real_free(p); }
int main(void){ int bad=0; for(int k=0;k<12;k++){ live=0; left=k; mbe_fft_plan* p=mbe_fft_plan_alloc(); left=-1; if(p) mbe_fft_plan_free(p); if(live) bad++; } printf("%d leaking failure points\n",bad); return bad!=0; }
''', extra="-Wl,--wrap=malloc,--wrap=free")
mk("erasure-overlap", "C21", [("src/ambe/ambe_common.c", "    memcpy(mp->previousUw, continuity->previousUw, sizeof(mp->previousUw));", "    memcpy(mp->previousUw, continuity->previousUw, sizeof(mp->previousUw) / sizeof(float));")],
   "an erasure frame after unvoiced speech; only the first quarter of the stored frame is carried", "the unvoiced tail kept across an erasure comes from an older frame", H + r'''
#include "ambe_common.h"
int main(void){ mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); for(int i=0;i<256;i++){ a.previousUw[i]=1; b.previousUw[i]=2; } mbe_setAmbeErasureParms_common(&a,&b); int bad=0; for(int i=0;i<256;i++) bad+=a.previousUw[i]!=2; printf("%d stale samples\n",bad); return bad!=0; }
''')
mk("shared-window", "C22", [("src/core/mbelib.c", "    float noise_buffer[256];\n", "    static float noise_buffer[256];\n")],
   "two threads synthesising at the same time", "threads share the noise buffer, so one decoder's noise leaks into another's phases and unvoiced sound", H + r'''
#include <pthread.h>
static volatile int stop; 
static void* other(void*x){ mbe_parms a,b,c; float o[160]; mbe_setThreadRngSeed(99); mbe_initMbeParms(&a,&b,&c); while(!stop){ for(int l=1;l<=a.L;l++) {a.Ml[l]=50;a.Vl[l]=0;} mbe_synthesizeSpeechf(o,&a,&b,3); b=a; } return 0; }
static void run(float*sum){ mbe_parms a,b,c; float o[160]; mbe_setThreadRngSeed(7); mbe_initMbeParms(&a,&b,&c); for(int f=0;f<20000;f++){ for(int l=1;l<=a.L;l++) {a.Ml[l]=50;a.Vl[l]=0;} mbe_synthesizeSpeechf(o,&a,&b,3); b=a; for(int i=0;i<160;i++) sum[i]+=o[i]*(1+f%7); } }
int main(void){ static float x[160],y[160]; run(x); pthread_t t; pthread_create(&t,0,other,0); run(y); stop=1; pthread_join(t,0); int bad=memcmp(x,y,sizeof x)!=0; printf("%s\n",bad?"differs":"same"); return bad; }
''', extra="-pthread")
