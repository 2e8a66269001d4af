"""Exact specifications of the C <math.h> decomposition and scaling functions as bit-vector terms.  Used as oracles by
the checks and as the meaning of the C library functions / compiler builtins that the run-time paths call."""
from terms import *
def fields(x):
    """sign(1), normalised significand (p bits, leading one set), unbiased exponent (20 bits, signed) of a finite nonzero x"""
    eb,mb=emb(x.w); bias=(1<<(eb-1))-1
    if x.w==80:
        p=64; e=EXTRACT(x,78,64); m=EXTRACT(x,63,0)
    else:
        p=mb+1; e=expo(x); m=CONCAT(ITE(EQ(e,C(0,eb)),C(0,1),C(1,1)),mant(x))
    ee=SUB(ITE(EQ(e,C(0,eb)),C(1,20),ZEXT(e,20)),C(bias,20))
    lz=CLZ(m)
    return sign_of(x),SHL(m,lz),SUB(ee,(ZEXT(lz,20) if lz.w<20 else EXTRACT(lz,19,0)))
def pack(s,biased,sig,w):
    """biased exponent field value (eb bits) and p-bit significand with explicit leading bit"""
    if w==80: return CONCAT(s,CONCAT(biased,sig))
    return CONCAT(s,CONCAT(biased,EXTRACT(sig,sig.w-2,0)))
def const(w,v):
    import struct,softfloat as sf
    d=struct.unpack('<Q',struct.pack('<d',v))[0]
    from terms import _fw,_out
    return C(d if w==64 else _out(sf.cvt(d,64,_fw(w),0),w),w)
def inf(s,w):
    eb,mb=emb(w)
    return pack(s,C(-1,eb),C(1<<(63 if w==80 else mb),64 if w==80 else mb+1),w)
def maxf(s,w):
    eb,mb=emb(w)
    return pack(s,C(mask(eb)-1,eb),C(-1,64 if w==80 else mb+1),w)
def special(x): return OR(FNAN(x),FINF(x),FZERO(x))
def roundup(rm,s,lsb,half,sticky):
    """round magnitude up?"""
    neg=EQ(s,C(1,1))
    return ITE(EQ(rm,RNE),AND(half,OR(sticky,lsb)),ITE(EQ(rm,RTN),AND(neg,OR(half,sticky)),ITE(EQ(rm,RTP),AND(NOT(neg),OR(half,sticky)),FALSE)))
def scale(x,n,rm):
    """x*2^n rounded once; n a signed bit vector of any width"""
    w=x.w; eb,mb=emb(w); p=64 if w==80 else mb+1; bias=(1<<(eb-1))-1; emin=1-bias; emax=bias
    s,m,e=fields(x); lim=4*(bias+p)
    if n.w<22: n=SEXT(n,22)
    nn=ITE(SLT(C(lim,n.w),n),C(lim,n.w),ITE(SLT(n,C(-lim,n.w)),C(-lim,n.w),n)); nn=EXTRACT(nn,21,0)
    e2=ADD(SEXT(e,22),nn)
    over=SLT(C(emax,22),e2); under=SLT(e2,C(emin,22))
    normal=pack(s,EXTRACT(ADD(e2,C(bias,22)),eb-1,0),m,w)
    neg=EQ(s,C(1,1))
    toinf=ITE(EQ(rm,RNE),TRUE,ITE(EQ(rm,RTN),neg,ITE(EQ(rm,RTP),NOT(neg),FALSE)))
    ov=ITE(toinf,inf(s,w),maxf(s,w))
    # gradual underflow: shift right by emin-e2, at most p+1 (everything sticky)
    sh=SUB(C(emin,22),e2); sh=ITE(SLT(C(p+1,22),sh),C(p+1,22),sh); sh=EXTRACT(sh,7,0)
    big=CONCAT(m,C(0,p+2)); q=LSHR(big,ZEXT(sh,2*p+2)); lo=EXTRACT(q,p+1,0); q=EXTRACT(q,2*p+1,p+2)
    half=EQ(EXTRACT(lo,p+1,p+1),C(1,1)); st=NE(EXTRACT(lo,p,0),C(0,p+1)); lsb=EQ(EXTRACT(q,0,0),C(1,1))
    r=ADD(ZEXT(q,p+1),ITE(roundup(rm,s,lsb,half,st),C(1,p+1),C(0,p+1)))
    if w==80: sub=CONCAT(s,CONCAT(ZEXT(EXTRACT(r,63,63),15),EXTRACT(r,63,0)))
    else: sub=CONCAT(s,ZEXT(EXTRACT(r,p-1,0),w-1))
    return ITE(special(x),x,ITE(over,ov,ITE(under,sub,normal)))
def ilogb(x):
    s,m,e=fields(x)
    return ITE(FNAN(x),C(-(1<<31),32),ITE(FINF(x),C((1<<31)-1,32),ITE(FZERO(x),C(-(1<<31),32),SEXT(e,32))))
def logb(x):
    w=x.w
    return ITE(FNAN(x),x,ITE(FINF(x),inf(C(0,1),w),ITE(FZERO(x),inf(C(1,1),w),ITOF('sitofp',RNE,ilogb(x),w))))
def frexp(x):
    """(fraction, exponent)"""
    eb,mb=emb(x.w); bias=(1<<(eb-1))-1
    s,m,e=fields(x)
    return ITE(special(x),x,pack(s,C(bias-1,eb),m,x.w)),ITE(special(x),C(0,32),ADD(SEXT(e,32),C(1,32)))
def modf(x):
    """(integral, fraction): the subtraction is exact"""
    w=x.w; i=FOP('rti',RTZ,x); z=CONCAT(sign_of(x),C(0,w-1))
    f=FOP('fsub',RNE,x,i)
    return ITE(FNAN(x),x,i),ITE(FNAN(x),x,ITE(FINF(x),z,ITE(FCMP('feq',x,i),z,f)))
def up(x):
    """least value above (finite or -inf x, not nan)"""
    w=x.w; s=neg_p(x)
    if w==80:
        eb=15
        def inc(mg):  # 79-bit magnitude in canonical form
            m=EXTRACT(mg,62,0); e=EXTRACT(mg,78,64); k=ADD(CONCAT(e,m),C(1,78)); e2=EXTRACT(k,77,63)
            return CONCAT(e2,CONCAT(ITE(EQ(e2,C(0,15)),C(0,1),C(1,1)),EXTRACT(k,62,0)))
        def dec(mg):
            m=EXTRACT(mg,62,0); e=EXTRACT(mg,78,64); k=SUB(CONCAT(e,m),C(1,78)); e2=EXTRACT(k,77,63)
            return CONCAT(e2,CONCAT(ITE(EQ(e2,C(0,15)),C(0,1),C(1,1)),EXTRACT(k,62,0)))
    else:
        inc=lambda m:ADD(m,C(1,w-1)); dec=lambda m:SUB(m,C(1,w-1))
    mg=EXTRACT(x,w-2,0)
    return ITE(FZERO(x),C(1,w),ITE(s,CONCAT(C(1,1),dec(mg)),ITE(FINF(x),x,CONCAT(C(0,1),inc(mg)))))
def down(x): return FNEG(up(FNEG(x)))
def nextafter(x,y):
    """y may be wider than x"""
    X=x if x.w==y.w else FCVT(RNE,x,y.w)
    yy=y if x.w==y.w else FCVT(RNE,y,x.w)
    return ITE(FNAN(x),x,ITE(FNAN(y),yy,ITE(FCMP('feq',X,y),yy,ITE(FCMP('flt',X,y),up(x),down(x)))))
# ---- formats given as (eb,mb): used at full size as oracles and at small sizes to validate them against the solver's FP theory
def unpack(x,eb,mb):
    """sign, significand with explicit leading bit (mb+1 bits, not normalised), exponent field (subnormal: 1)"""
    s=EXTRACT(x,eb+mb,eb+mb); e=EXTRACT(x,eb+mb-1,mb); m=EXTRACT(x,mb-1,0); z=EQ(e,C(0,eb))
    return s,CONCAT(ITE(z,C(0,1),C(1,1)),m),ITE(z,C(1,eb),e)
def isnan(x,eb,mb): return AND(EQ(EXTRACT(x,eb+mb-1,mb),C(-1,eb)),NE(EXTRACT(x,mb-1,0),C(0,mb)))
def isinf(x,eb,mb): return EQ(EXTRACT(x,eb+mb-1,0),C(mask(eb)<<mb,eb+mb))
def iszero(x,eb,mb): return EQ(EXTRACT(x,eb+mb-1,0),C(0,eb+mb))
def qnan(eb,mb): return C((mask(eb)<<mb)|(1<<(mb-1)),eb+mb+1)
def round_norm(s,m,e,sticky,rm,eb,mb):
    """+-1.f * 2^e rounded once: m (W bits, leading bit set), e signed exponent of the leading bit (EW bits), sticky: nonzero tail below m"""
    W=m.w; EW=e.w; p=mb+1; bias=(1<<(eb-1))-1; emin=1-bias
    over=SLT(C(bias,EW),e); under=SLT(e,C(emin,EW))
    # shift so that the kept significand is the low p bits
    d=SUB(C(emin,EW),e); d=ITE(SLT(C(p+1,EW),d),C(p+1,EW),d)
    sh=ITE(under,d,C(0,EW))
    big=CONCAT(m,C(0,p+1)); shw=ZEXT(EXTRACT(sh,EW-1,0),big.w) if EW<=big.w else EXTRACT(sh,big.w-1,0)
    q=LSHR(big,shw)
    keep=EXTRACT(q,W+p,W+1); half=EQ(EXTRACT(q,W,W),C(1,1)); st=OR(NE(EXTRACT(q,W-1,0),C(0,W)),sticky)
    bexp=ITE(under,C(0,eb),EXTRACT(ADD(e,C(bias,EW)),eb-1,0))
    r=CONCAT(bexp,EXTRACT(keep,mb-1,0))
    inc=roundup(rm,s,EQ(EXTRACT(keep,0,0),C(1,1)),half,st)
    r=ADD(r,ITE(inc,C(1,eb+mb),C(0,eb+mb)))
    neg=EQ(s,C(1,1)); toinf=ITE(EQ(rm,RNE),TRUE,ITE(EQ(rm,RTN),neg,ITE(EQ(rm,RTP),NOT(neg),FALSE)))
    ov=ITE(toinf,C(mask(eb)<<mb,eb+mb),C((mask(eb)<<mb)-1,eb+mb))
    return CONCAT(s,ITE(over,ov,r))
def fma(x,y,z,rm,eb,mb,prod=None):
    p=mb+1; W=4*p; EW=max(eb+4,(2*W).bit_length()+2); bias=(1<<(eb-1))-1
    sx,mx,ex=unpack(x,eb,mb); sy,my,ey=unpack(y,eb,mb); sz,mz,ez=unpack(z,eb,mb)
    P=prod if prod is not None else MUL(ZEXT(mx,2*p),ZEXT(my,2*p)); sp=XOR(sx,sy)
    lp=CLZ(P); lz=CLZ(mz); E=lambda t:(ZEXT(t,EW) if t.w<EW else EXTRACT(t,EW-1,0))
    # exponents of the leading bits: value = P * 2^(ex+ey-2*bias-2*mb)
    ep=SUB(ADD(ADD(E(ex),E(ey)),C(-2*bias-2*mb+2*p-1,EW)),E(lp))
    em=SUB(ADD(E(ez),C(-bias,EW)),E(lz))
    A=CONCAT(SHL(P,lp),C(0,W-2*p)); B_=CONCAT(SHL(mz,lz),C(0,W-p))
    d=SUB(ep,em); pg=NOT(SLT(d,C(0,EW)))   # the product has the larger exponent
    ad=ITE(pg,d,NEG(d)); big=SLT(C(W,EW),ad); ad=ITE(big,C(W,EW),ad)
    hi=ITE(pg,A,B_); lo=ITE(pg,B_,A); e=ITE(pg,ep,em); shi=ITE(pg,sp,sz); slo=ITE(pg,sz,sp)
    sh=ZEXT(ad,2*W) if EW<2*W else EXTRACT(ad,2*W-1,0)
    l2=LSHR(CONCAT(lo,C(0,W)),sh); lo_=EXTRACT(l2,2*W-1,W); st=NE(EXTRACT(l2,W-1,0),C(0,W))
    same=EQ(shi,slo)
    S=ADD(ZEXT(hi,W+1),ZEXT(lo_,W+1)); car=EQ(EXTRACT(S,W,W),C(1,1))
    sm=ITE(car,EXTRACT(S,W,1),EXTRACT(S,W-1,0)); se=ITE(car,ADD(e,C(1,EW)),e); ss=OR(st,AND(car,EQ(EXTRACT(S,0,0),C(1,1))))
    # difference of magnitudes; hi may be smaller than lo only when the exponents are equal
    sw=ULT(hi,lo_); D=SUB(ITE(sw,lo_,hi),ITE(sw,hi,lo_)); D=ITE(st,SUB(D,C(1,W)),D)
    ld=CLZ(D); dm=SHL(D,ld); de=SUB(e,E(ld) if ld.w<=EW or True else ld); ds=ITE(sw,slo,shi)
    # with a sticky tail the difference is D + (tail complement): still in (D, D+1)
    zerosum=AND(EQ(D,C(0,W)),NOT(st))
    rs=ITE(same,shi,ds); rm_=ITE(same,sm,dm); re=ITE(same,se,de); rst=ITE(same,ss,st)
    res=round_norm(rs,rm_,re,rst,rm,eb,mb)
    w=eb+mb+1; zs=ITE(EQ(rm,RTN),C(1,1),C(0,1))
    res=ITE(AND(NOT(same),zerosum),CONCAT(zs,C(0,w-1)),res)
    # z zero or product zero
    prodonly=round_norm(sp,A,ep,FALSE,rm,eb,mb)
    pz=OR(iszero(x,eb,mb),iszero(y,eb,mb)); zz=iszero(z,eb,mb)
    res=ITE(pz,ITE(zz,ITE(EQ(sp,sz),CONCAT(sp,C(0,w-1)),CONCAT(zs,C(0,w-1))),z),ITE(zz,prodonly,res))
    pinf=OR(isinf(x,eb,mb),isinf(y,eb,mb)); zinf=isinf(z,eb,mb); pi=CONCAT(sp,C(mask(eb)<<mb,w-1))
    bad=OR(isnan(x,eb,mb),isnan(y,eb,mb),isnan(z,eb,mb),AND(pinf,pz),AND(pinf,zinf,NE(sp,sz)))
    return ITE(bad,qnan(eb,mb),ITE(pinf,pi,ITE(zinf,z,res)))
