import sys
from mkbug import make
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mbelib-neo/mbelib.h"
static unsigned rs=1; static unsigned rnd(void){ rs=rs*1664525u+1013904223u; return rs>>8; }
'''
only = sys.argv[1:]
def mk(id, *a, **k):
    if not only or id in only: make(id, *a, **k)
mk("ham-weight7", "C02", [("src/ecc/ecc.c", "        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);\n        int stmp2 = (stmp & 1);\n        for (j = 0; j < 14; j++) {\n            stmp >>= 1;\n            stmp2 ^= (stmp & 1);\n        }\n        syndrome |= (stmp2 << i);", "        int stmp = (int)(block & (uint32_t)imbe7100x4400hammingGenerator[i]);\n        int stmp2 = (stmp & 1);\n        for (j = 0; j < 14; j++) {\n            stmp >>= 1;\n            stmp2 += (stmp & 1);\n        }\n        syndrome |= (((0x2a >> stmp2) & 1) << i);")],
   "a received word in which seven of the eight bits of one parity check are set", "odd parity of weight seven counts as even, so such words are corrected at the wrong place or not at all", H + r'''
int main(void){ static const int g[4]={0x7ac8,0x3d64,0x1eb2,0x7591}; int bad=0; for(int w=0;w<32768;w++){ char in[15],out[15]; for(int i=0;i<15;i++) in[i]=w>>i&1; int e=mbe_7100x4400hamming1511(in,out),v=0; for(int i=0;i<15;i++) v|=out[i]<<i; for(int r=0;r<4;r++) if(__builtin_parity(v&g[r])) { bad++; break; } if(e!=__builtin_popcount(v^w)) bad++; } printf("%d words decoded to a non-codeword or miscounted\n",bad); return bad!=0; }
''')
mk("fft-sqrt-digits", "C23", [("src/external/pffft/pffft.c", "static const float minus_hsqt2 = (float)-0.7071067811865475;", "static const float minus_hsqt2 = (float)-0.7071607811865475;")],
   "any input with energy in odd bins (two digits of a constant exchanged, relative error 8e-5)", "the forward transform is slightly off: bands leak into one another", H + r'''
#include "pffft.h"
int main(void){ PFFFT_Setup*s=pffft_new_setup(256,PFFFT_REAL); float*x=pffft_aligned_malloc(1024),*y=pffft_aligned_malloc(1024),*w=pffft_aligned_malloc(1024); double worst=0; for(int k=1;k<128;k++){ for(int i=0;i<256;i++) x[i]=cos(2*M_PI*k*i/256); pffft_transform_ordered(s,x,y,w,PFFFT_FORWARD); for(int j=0;j<256;j++){ double want=j==2*k?128:0; if(fabs(y[j]-want)>worst) worst=fabs(y[j]-want); } } printf("largest error %g\n",worst); return worst>1e-3; }
''')
mk("fft-align", "C23", [("src/external/pffft/pffft.c", "((size_t)p0 + MALLOC_V4SF_ALIGNMENT) &", "((size_t)p0 + MALLOC_V4SF_ALIGNMENT - 1) &")],
   "an allocator that returns a block already aligned to 64 bytes", "the bookkeeping pointer is written below the allocated block", H + r'''
#include <malloc.h>
static char* last; void* __wrap_malloc(size_t n){ char*p=memalign(64,n+128); memset(p,0x5a,64); last=p+64; return last; } void __wrap_free(void*p){ }
#include "pffft.h"
int main(void){ char*p=pffft_aligned_malloc(1000); int bad=0; for(int i=1;i<=64;i++) if(last[-i]!=0x5a) bad++; printf("%d bytes below the block overwritten\n",bad); return bad!=0||((size_t)p&63); }
''', extra="-Wl,--wrap=malloc,--wrap=free")
mk("imbe-rho-run", "C24", [("src/imbe/imbe7200x4400.c", "} else if (cur_mp->L <= 24) {", "} else if (cur_mp->L <= 42) {")],
   "many frames with 37 to 42 harmonics whose bits push one harmonic the same way", "the prediction coefficient exceeds one for 36 and more harmonics, so amplitudes grow without bound", H + r'''
int main(void){ float worst=0; for(int b0=110;b0<160;b0++) for(int t=0;t<20;t++){ char d[88]; mbe_parms a,b,c; mbe_initMbeParms(&a,&b,&c); for(int i=0;i<88;i++) d[i]=rnd()&1; for(int i=0;i<6;i++) d[i]=b0>>(7-i)&1; d[85]=b0>>1&1; d[86]=b0&1; for(int f=0;f<400;f++){ if(mbe_decodeImbe4400Parms(d,&a,&b)) break; b=a; } for(int l=1;l<=a.L;l++) if(!(fabsf(a.log2Ml[l])<=worst)) worst=fabsf(a.log2Ml[l]); } printf("largest log2 amplitude after 400 frames %g\n",worst); return !(worst<=100); }
''')
mk("ambe-mean-prev", "C07", [("src/ambe/ambe3600x2450.c", "    Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);", "    Sum43 = (((float)0.65 / (float)((cur_mp->L > 50) ? 56 : cur_mp->L)) * Sum43);")],
   "long runs of frames with 51 to 55 harmonics", "the mean removed from the prediction is too small, so the level drifts with the history", H + r'''
int main(void){ float worst=0; for(int b0=108;b0<120;b0++){ char d[49]; mbe_parms a,b,c,p; mbe_initMbeParms(&a,&b,&c); for(int i=0;i<49;i++) d[i]=rnd()&1; d[0]=d[1]=0; for(int i=0;i<4;i++) d[i]=b0>>(6-i)&1; for(int i=0;i<3;i++) d[37+i]=b0>>(2-i)&1; mbe_parms x=a,y=a; p=b; if(mbe_decodeAmbe2450Parms(d,&x,&p)) continue; p=b; for(int l=0;l<57;l++) p.log2Ml[l]+=60; mbe_decodeAmbe2450Parms(d,&y,&p); for(int l=1;l<=x.L;l++) { float e=fabsf(x.log2Ml[l]-y.log2Ml[l]); if(!(e<=worst)) worst=e; } } printf("level dependence %g\n",worst); return worst>0.1; }
''')
