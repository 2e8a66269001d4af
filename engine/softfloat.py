"""Exact software floating point on bit patterns (integers), all four rounding modes.

Used only to evaluate terms concretely (translator validation, counterexample replay, constant folding).
rm: 0 nearest-even, 1 toward -inf, 2 toward +inf, 3 toward zero (the order of x86 MXCSR).
NaN results are the positive canonical quiet NaN.
"""
from math import isqrt
FMT={16:(5,10),32:(8,23),64:(11,52),79:(15,63)}  # 79: x87 extended without its explicit integer bit
RNE,RTN,RTP,RTZ=0,1,2,3
def fields(b,w):
    eb,mb=FMT[w]
    return (b>>(eb+mb))&1,(b>>mb)&((1<<eb)-1),b&((1<<mb)-1)
def is_nan(b,w):
    eb,mb=FMT[w]; s,e,m=fields(b,w); return e==(1<<eb)-1 and m!=0
def is_inf(b,w):
    eb,mb=FMT[w]; s,e,m=fields(b,w); return e==(1<<eb)-1 and m==0
def is_zero(b,w):
    return (b & ((1<<(w-1))-1))==0
def qnan(w):
    eb,mb=FMT[w]; return (((1<<eb)-1)<<mb)|(1<<(mb-1))
def inf(s,w):
    eb,mb=FMT[w]; return (s<<(w-1))|(((1<<eb)-1)<<mb)
def zero(s,w): return s<<(w-1)
def maxf(s,w): return inf(s,w)-1
def unpack(b,w):
    """finite -> (sign, m, e) with value (-1)^s m 2^e"""
    eb,mb=FMT[w]; s,e,m=fields(b,w); bias=(1<<(eb-1))-1
    if e==0: return s,m,1-bias-mb
    return s,m|(1<<mb),e-bias-mb
def roundpack(s,m,e,w,rm,sticky=0):
    """round (-1)^s (m + sticky*eps) 2^e"""
    eb,mb=FMT[w]; bias=(1<<(eb-1))-1; emin=1-bias-mb
    if m==0 and not sticky: return zero(s,w)
    if sticky: m=(m<<2)|1; e-=2
    n=m.bit_length()
    e2=max(e+n-(mb+1),emin)
    sh=e2-e
    if sh<=0: q=m<<(-sh); rem=0; half=0
    else:
        q=m>>sh; rem=m&((1<<sh)-1); half=1<<(sh-1)
    if rem:
        up={RNE:(rem>half or (rem==half and (q&1))),RTN:s==1,RTP:s==0,RTZ:False}[rm]
        if up: q+=1
    if q>>(mb+1): q>>=1; e2+=1   # only happens when q is a power of two
    if q==0: return zero(s,w)
    if q>>mb: ex=e2+bias+mb
    else: ex=0
    if ex>=(1<<eb)-1:
        if rm==RNE or (rm==RTN and s) or (rm==RTP and not s): return inf(s,w)
        return maxf(s,w)
    if ex==0: return (s<<(w-1))|q
    return (s<<(w-1))|(ex<<mb)|(q&((1<<mb)-1))
def _sum(t1,t2,w,rm):
    s1,m1,e1=t1; s2,m2,e2=t2
    e=min(e1,e2)
    v=(-1 if s1 else 1)*(m1<<(e1-e))+(-1 if s2 else 1)*(m2<<(e2-e))
    if v==0:
        if m1==0 and m2==0 and s1==s2: return zero(s1,w)
        return zero(1 if rm==RTN else 0,w)
    return roundpack(1 if v<0 else 0,abs(v),e,w,rm)
def add(a,b,w,rm):
    if is_nan(a,w) or is_nan(b,w): return qnan(w)
    if is_inf(a,w):
        if is_inf(b,w) and a!=b: return qnan(w)
        return a
    if is_inf(b,w): return b
    return _sum(unpack(a,w),unpack(b,w),w,rm)
def neg(a,w): return a^(1<<(w-1))
def sub(a,b,w,rm): return add(a,neg(b,w) if not is_nan(b,w) else b,w,rm)
def mul(a,b,w,rm):
    if is_nan(a,w) or is_nan(b,w): return qnan(w)
    s=(a>>(w-1))^(b>>(w-1))
    if is_inf(a,w) or is_inf(b,w):
        if is_zero(a,w) or is_zero(b,w): return qnan(w)
        return inf(s,w)
    _,m1,e1=unpack(a,w); _,m2,e2=unpack(b,w)
    return roundpack(s,m1*m2,e1+e2,w,rm)
def div(a,b,w,rm):
    if is_nan(a,w) or is_nan(b,w): return qnan(w)
    s=(a>>(w-1))^(b>>(w-1))
    if is_inf(a,w): return qnan(w) if is_inf(b,w) else inf(s,w)
    if is_inf(b,w): return zero(s,w)
    if is_zero(b,w): return qnan(w) if is_zero(a,w) else inf(s,w)
    _,m1,e1=unpack(a,w); _,m2,e2=unpack(b,w)
    if m1==0: return zero(s,w)
    sh=max(0,FMT[w][1]+4+m2.bit_length()-m1.bit_length())
    q,r=divmod(m1<<sh,m2)
    return roundpack(s,q,e1-e2-sh,w,rm,1 if r else 0)
def fma(a,b,c,w,rm):
    if is_nan(a,w) or is_nan(b,w) or is_nan(c,w): return qnan(w)
    s=(a>>(w-1))^(b>>(w-1))
    if is_inf(a,w) or is_inf(b,w):
        if is_zero(a,w) or is_zero(b,w): return qnan(w)
        if is_inf(c,w) and (c>>(w-1))!=s: return qnan(w)
        return inf(s,w)
    if is_inf(c,w): return c
    _,m1,e1=unpack(a,w); _,m2,e2=unpack(b,w)
    return _sum((s,m1*m2,e1+e2),unpack(c,w),w,rm)
def sqrt(a,w,rm):
    if is_nan(a,w): return qnan(w)
    if is_zero(a,w): return a
    if a>>(w-1): return qnan(w)
    if is_inf(a,w): return a
    _,m,e=unpack(a,w)
    sh=2*(FMT[w][1]+4)
    if (e-sh)&1: sh+=1
    m<<=sh; e-=sh
    r=isqrt(m)
    return roundpack(0,r,e//2,w,rm,1 if r*r!=m else 0)
def rti(a,w,rm):
    """round to integral; rm 4 = ties away"""
    if is_nan(a,w): return qnan(w)
    if is_inf(a,w) or is_zero(a,w): return a
    s,m,e=unpack(a,w)
    if e>=0: return a
    sh=-e; q=m>>sh; r=m&((1<<sh)-1); half=1<<(sh-1)
    up={RNE:r>half or (r==half and q&1),RTN:s==1 and r,RTP:s==0 and r,RTZ:False,4:r>=half}[rm]
    if up: q+=1
    return roundpack(s,q,0,w,RTZ)
def cmp(a,b,w):
    """-1,0,1 or None"""
    if is_nan(a,w) or is_nan(b,w): return None
    def key(x):
        m=x&((1<<(w-1))-1); return -m if x>>(w-1) else m
    ka,kb=key(a),key(b)
    return (ka>kb)-(ka<kb)
def cvt(a,wf,wt,rm):
    if is_nan(a,wf): return qnan(wt)
    s=a>>(wf-1)
    if is_inf(a,wf): return inf(s,wt)
    _,m,e=unpack(a,wf)
    return roundpack(s,m,e,wt,rm)
def from_int(v,w,rm):
    return roundpack(1 if v<0 else 0,abs(v),0,w,rm)
def to_int(a,w,rm=RTZ):
    """integer value or None"""
    if is_nan(a,w) or is_inf(a,w): return None
    r=rti(a,w,rm); s,m,e=unpack(r,w)
    v=m<<e if e>=0 else m>>-e
    return -v if s else v
def ieee_rem(a,b,w):
    if is_nan(a,w) or is_nan(b,w) or is_inf(a,w) or is_zero(b,w): return qnan(w)
    if is_inf(b,w) or is_zero(a,w): return a
    s,m1,e1=unpack(a,w); _,m2,e2=unpack(b,w)
    e=min(e1,e2); x=m1<<(e1-e); y=m2<<(e2-e)
    q,r=divmod(x,y)
    if 2*r>y or (2*r==y and q&1): r-=y
    if r==0: return zero(s,w)
    if r<0: s^=1; r=-r
    return roundpack(s,r,e,w,RNE)
def fmod(a,b,w):
    if is_nan(a,w) or is_nan(b,w) or is_inf(a,w) or is_zero(b,w): return qnan(w)
    if is_inf(b,w) or is_zero(a,w): return a
    s,m1,e1=unpack(a,w); _,m2,e2=unpack(b,w)
    e=min(e1,e2); r=(m1<<(e1-e))%(m2<<(e2-e))
    return roundpack(s,r,e,w,RNE)
def fraction(a,w):
    from fractions import Fraction
    s,m,e=unpack(a,w)
    v=Fraction(m)*(Fraction(2)**e)
    return -v if s else v
def ld80_to79(b):  # drop explicit integer bit
    return ((b>>64)<<63)|(b&((1<<63)-1))
def ld79_to80(b):
    e=(b>>63)&0x7fff
    return ((b>>63)<<64)|((1 if e else 0)<<63)|(b&((1<<63)-1))
