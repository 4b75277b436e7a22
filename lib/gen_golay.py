# Generates golay_spec.h: coset leaders of the perfect (23,12) Golay code, from its generator polynomial only.
# GT[s] = data part of the unique weight<=3 error pattern with syndrome s; GP[i] = parity of data bit 11-i.
G=0xC75
def par(d):
    r=d<<11
    for i in range(22,10,-1):
        if r>>i&1: r^=G<<(i-11)
    return r&0x7ff
T=[None]*2048
import itertools
for w in range(4):
    for c in itertools.combinations(range(23),w):
        e=sum(1<<i for i in c)
        s=par(e>>11)^(e&0x7ff)
        assert T[s] is None; T[s]=e>>11
print("static const unsigned short GT[2048]={"+",".join(map(str,T))+"};")
print("static const unsigned short GP[12]={"+",".join(hex(par(1<<(11-i))) for i in range(12))+"};")
