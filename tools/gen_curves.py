#!/opt/venv/bin/python
"""One-off: writes spec/CurveTab.tla and spec/OidTab.tla.  The checks never run this.

Values were read from the library at the base commit (with the repaired identifier of paramSetC),
compared by eye with R 1323565.1.024-2019 / RFC 7836 and validated here: p and q prime, base point
on the curve and of order q, m = 1 or 4 times q within the Hasse bound, Edwards form equivalent.
"""
import sys
sys.path.insert(0,'/repo'); sys.dont_write_bytecode=True
from gostcrypto.gostsignature import CURVES_R_1323565_1_024_2019 as C
from gostcrypto.gostoid import OBJECT_IDENTIFIER_TC26 as T
import random
def prime(n):
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for _ in range(40):
        a=random.randrange(2,n-1);x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def add(P,Q,a,p):
    if P is None:return Q
    if Q is None:return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0:return None
        l=(3*P[0]*P[0]+a)*pow(2*P[1],-1,p)%p
    else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p
    x=(l*l-P[0]-Q[0])%p
    return x,(l*(P[0]-x)-P[1])%p
def mul(k,P,a,p):
    R=None
    while k:
        if k&1:R=add(R,P,a,p)
        P=add(P,P,a,p);k>>=1
    return R
def seq(v): return '<<'+', '.join(str(b) for b in v.to_bytes((v.bit_length()+7)//8,'big'))+'>>'
import textwrap
wrap=lambda s:'\n'.join(textwrap.wrap(s,100,subsequent_indent='      ',break_long_words=False))
out=['------------------------------ MODULE CurveTab ------------------------------',
'(* Parameter sets of R 1323565.1.024-2019 (generated once by tools/gen_curves.py, which    *)',
'(* validates them).  Numbers as minimal big-endian byte strings (BigNat).                  *)',
'CurveTab == <<']
rec=[]
for n,c in C.items():
    assert n.isascii()
    p,a,b,q,m,x,y=(c[k] for k in 'pabqmxy')
    assert prime(p) and prime(q) and (y*y-x**3-a*x-b)%p==0 and mul(q,(x,y),a,p) is None and m%q==0 and m//q in(1,4)
    assert (m-p-1)**2<=4*p
    if 'e' in c:
        e,d,u,v=(c[k] for k in 'eduv')
        assert (e*u*u+v*v-1-d*u*u*v*v)%p==0
        s=(e-d)*pow(4,-1,p)%p; t=(e+d)*pow(6,-1,p)%p
        assert a==(s*s-3*t*t)%p and b==(2*t**3-t*s*s)%p and x==(s*(1+v)*pow(1-v,-1,p)+t)%p and y==s*(1+v)*pow((1-v)*u,-1,p)%p
    size=32 if p<2**256 else 64
    r='  [name |-> "%s", size |-> %d, par |-> ['%(n,size)+', '.join('%s |-> %s'%(k,seq(v)) for k,v in sorted(c.items()))+']]'
    rec.append(wrap(r))
out.append(',\n'.join(rec)+'>>')
out.append('============================================================================')
open('/verif/spec/CurveTab.tla','w').write('\n'.join(out)+'\n')
out=['------------------------------- MODULE OidTab -------------------------------',
'(* Names of the TC 26 object identifiers (generated once by tools/gen_curves.py and compared  *)',
'(* with the TC 26 register).                                                               *)','OidTab == <<']
out.append(',\n'.join('  <<"%s", "%s">>'%(k,v) for k,v in T.items())+'>>')
out.append('============================================================================')
open('/verif/spec/OidTab.tla','w').write('\n'.join(out)+'\n')
