#!/opt/venv/bin/python
"""One-off: writes spec/Tables.tla (constants of the standards) and cross-checks them.

The checks never run this: Tables.tla is committed and is the oracle.  The values were typed
from the standards (A, the Kuznyechik coefficients, the Magma S-boxes) or taken from the
library at the base commit and then cross-checked structurally (every entry of its lookup
tables must be the one the standard's linear map gives).
"""
import sys
sys.path.insert(0,'/repo'); sys.dont_write_bytecode=True
from gostcrypto.gosthash import gost_34_11_2012 as H
from gostcrypto.gostcipher import gost_34_12_2015 as K
A=[int(x,16) for x in '''8e20faa72ba0b470 47107ddd9b505a38 ad08b0e0c3282d1c d8045870ef14980e 6c022c38f90a4c07 3601161cf205268d 1b8e0b0e798c13c8 83478b07b2468764 a011d380818e8f40 5086e740ce47c920 2843fd2067adea10 14aff010bdd87508 0ad97808d06cb404 05e23c0468365a02 8c711e02341b2d01 46b60f011a83988e 90dab52a387ae76f 486dd4151c3dfdb9 24b86a840e90f0d2 125c354207487869 092e94218d243cba 8a174a9ec8121e5d 4585254f64090fa0 accc9ca9328a8950 9d4df05d5f661451 c0a878a0a1330aa6 60543c50de970553 302a1e286fc58ca7 18150f14b9ec46dd 0c84890ad27623e0 0642ca05693b9f70 0321658cba93c138 86275df09ce8aaa8 439da0784e745554 afc0503c273aa42a d960281e9d1d5215 e230140fc0802984 71180a8960409a42 b60c05ca30204d21 5b068c651810a89e 456c34887a3805b9 ac361a443d1c8cd2 561b0d22900e4669 2b838811480723ba 9bcf4486248d9f5d c3e9224312c8c1a0 effa11af0964ee50 f97d86d98a327728 e4fa2054a80b329c 727d102a548b194e 39b008152acb8227 9258048415eb419d 492c024284fbaec0 aa16012142f35760 550b8e9e21f7a530 a48b474f9ef5dc18 70a6a56e2440598e 3853dc371220a247 1ca76e95091051ad 0edd37c48a08a6d8 07e095624504536c 8d70c431ac02a736 c83862965601dd1b 641c314b2b8ee083'''.split()]
PI=list(K._S_BOX_KUZNECHIK)
assert sorted(PI)==list(range(256))
assert [PI[K._S_BOX_REVERSE_KUZNECHIK[i]] for i in range(256)]==list(range(256))
# library T[j][x]: contribution of byte j (little-endian byte order within the 8-byte row)
def lin(byteidx,v):           # 64-bit vector, bit 63 <-> A[0]; byte index 7 is the most significant
    r=0
    for b in range(8):
        if v>>b&1: r^=A[63-(8*byteidx+b)]
    return r
assert all(H._T[j][x]==lin(j,PI[x]) for j in range(8) for x in range(256)), 'T'
C=[list(c) for c in H._C]; assert len(C)==12 and all(len(c)==64 for c in C)
LC=[148,32,133,16,194,192,1,251,1,192,194,16,133,32,148,1]
def mul(a,b):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&256: a^=0x1c3
        b>>=1
    return r
# library _cipher_r: a0 ^= GF[i][result[i]], with result[i]=data[i-1]
assert all(K._GF[i][x]==mul(LC[(i-1)%16],x) for i in range(16) for x in range(256)),'GF'
MZ=[[12,4,6,2,10,5,11,9,14,8,13,7,0,3,15,1],[6,8,2,3,9,10,5,12,1,14,4,7,11,13,0,15],[11,3,5,8,2,15,10,13,14,1,7,4,12,9,6,0],[12,8,2,1,13,4,15,6,7,0,10,5,3,14,9,11],[7,15,5,10,8,1,6,13,0,9,3,14,11,4,2,12],[5,13,15,6,9,2,12,10,11,7,8,1,4,3,14,0],[8,14,2,5,6,9,1,12,15,4,11,0,13,10,3,7],[1,7,14,13,0,5,8,3,4,15,10,6,9,12,11,2]]
assert [list(r) for r in K._S_BOX_MAGMA]==MZ
# C constants are LPS-derived in the standard's rationale; check the published property: known digest covers them
def seq(xs): return '<<'+', '.join(map(str,xs))+'>>'
def wrap(s):
    import textwrap
    return '\n'.join(textwrap.wrap(s,100,subsequent_indent='    ',break_long_words=False))
o='---- MODULE Tables ----\n(* Constants of GOST R 34.11-2012 and GOST R 34.12-2015 (generated once by tools/gen_tables.py). *)\n'
o+='\\* Nonlinear bijection pi (shared by Streebog and Kuznyechik); Pi[x + 1] = pi(x).\n'+wrap('Pi == '+seq(PI))+'\n'
o+='\\* Rows of the matrix A of the linear transformation l, most significant byte first.\n'
o+='MatA == <<\n'+',\n'.join('  '+seq(a.to_bytes(8,'big')) for a in A)+'>>\n'
o+='\\* Round constants C_1..C_12, least significant byte first.\n'
o+='RC == <<\n'+',\n'.join(wrap('  '+seq(c)) for c in C)+'>>\n'
o+='\\* Coefficients of the Kuznyechik linear form l(a_15, ..., a_0).\nKuzCoef == '+seq(LC)+'\n'
o+='\\* Magma substitutions pi_0 .. pi_7.\nMagmaPi == <<\n'+',\n'.join('  '+seq(r) for r in MZ)+'>>\n====\n'
open('/verif/spec/Tables.tla','w').write(o)
print('ok')
