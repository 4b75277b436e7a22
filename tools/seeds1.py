from mkbug import make
GOL = r'''
#include <stdio.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"
static const int gen[12] = {0x63a,0x31d,0x7b4,0x3da,0x1ed,0x6cc,0x366,0x1b3,0x6e3,0x54b,0x49f,0x475};
static unsigned enc(unsigned d){unsigned e=0;for(int i=0;i<12;i++)if(d>>(11-i)&1)e^=gen[i];return d<<11|e;}
'''
make("golay-entry", "C01", [("src/ecc/ecc_const.c", "134,  2048, 1056, 288,  2576, 5,", "134,  2048, 1056, 288,  2576, 4,")],
     "a received word whose error pattern has three errors giving syndrome 0x40 + 2 (one 3-error coset)", "one three-error pattern is miscorrected", GOL + r'''
int main(void){ int bad=0;
 for(int a=0;a<23;a++)for(int b=a+1;b<23;b++)for(int c=b+1;c<23;c++){ unsigned w=enc(0x5a3)^1u<<a^1u<<b^1u<<c; long x=w; mbe_checkGolayBlock(&x); if(x!=0x5a3) bad++; }
 printf("%d patterns miscorrected\n",bad); return bad!=0; }
''')
make("ambe-parity24", "C03", [("src/ambe/ambe_common.c", "        for (j = 0; j < 24; j++) {\n            ones", "        for (j = 0; j < 23; j++) {\n            ones")],
     "a C0 word whose most significant data bit is set (or whose only error is the parity bit in that case)", "C0 parity check leaves one data bit out", GOL + r'''
int main(void){ int bad=0; for(unsigned d=0;d<4096;d++){ char fr[4][24]; memset(fr,0,sizeof fr); unsigned w=enc(d); int o=0; for(int i=0;i<23;i++){fr[0][i+1]=w>>i&1;o^=w>>i&1;} fr[0][0]=o; if(mbe_eccAmbe3600x2450C0(fr)!=0||fr[0][0]!=o) bad++; } printf("%d valid C0 words altered\n",bad); return bad!=0; }
''')
make("imbe7100-b0wrap", "C05", [("src/imbe/imbe7100x4400.c", "    if (L < 37) {\n        K = (int)((float)(L + 2) / (float)3);", "    if (L <= 37) {\n        K = (int)((float)(L + 2) / (float)3);")],
     "a frame whose pitch index gives exactly 37 harmonics", "7100 to 7200 bit reordering uses the wrong number of voicing bands (13 instead of 12) when L = 37", r'''
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "mbelib-neo/mbelib.h"
int main(void){ int bad=0; for(int b0=0;b0<208;b0++){ int L=(int)(0.9254*(int)((b0+39.5)/4+0.25)); int K=L<37?(L+2)/3:12;
 if(L>56)continue; for(int bit=0;bit<88;bit++){ char d[88]; memset(d,0,88); d[bit]=1; for(int i=0;i<6;i++) d[1+i]=b0>>(7-i)&1; d[86]=b0>>1&1; d[87]=b0&1; char s[88]; memcpy(s,d,88); mbe_convertImbe7100to7200(d);
  /* b1 bits stay in order right after the first 48, then b2.2 b2.1 */
  for(int i=0;i<K;i++) if(d[48+i]!=s[44+i]) bad++; if(d[48+K]!=s[42]||d[49+K]!=s[43]) bad++; } }
 printf("%d misplaced bits\n",bad); return bad!=0; }
''')
make("ambe-pr-edge", "C06", [("src/ambe/ambe_common.c", "pr[i] = (unsigned short)(pr[i] / 32768);", "pr[i] = (unsigned short)(pr[i] > 32768);")],
     "a demodulation seed (C0 data word) whose pseudo-random sequence hits the value 32768 exactly", "one C1 bit is demodulated wrongly for those seeds", r'''
#include <stdio.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"
int main(void){ int bad=0; for(unsigned s=0;s<4096;s++){ char fr[4][24]; memset(fr,0,sizeof fr); for(int i=0;i<12;i++) fr[0][12+i]=s>>i&1; mbe_demodulateAmbe3600x2450Data(fr);
 unsigned p=16*s; for(int j=22;j>=0;j--){ p=(173*p+13849)&0xffff; if(fr[1][j]!=(int)(p>>15)) {bad++;break;} } } printf("%d seeds demodulated wrongly\n",bad); return bad!=0; }
''')
