# Generates k_spec.h: number of harmonics L and voicing bits K per pitch index b0, from the definition
# w0 = 4*pi/(b0+39.5), L = floor(0.9254*floor(pi/w0 + 0.25)), K = floor((L+2)/3) if L<37 else 12   (exact rational arithmetic)
from fractions import Fraction as F
from math import floor
L=[floor(F(9254,10000)*floor((F(b)+F(79,2))/4+F(1,4))) for b in range(256)]
K=[(l+2)//3 if l<37 else 12 for l in L]
print("/* generated by gen_k.py (exact rational arithmetic) */")
print("static const unsigned char SPEC_L[256] = {%s};"%", ".join(map(str,L)))
print("static const unsigned char SPEC_K[256] = {%s};"%", ".join(map(str,K)))
