"""Taylor expansions of the reference functions around c, in t with x=c+d*t: (coefficients, remainder bound, lower bound of |f|)"""
from fractions import Fraction as Q
import mpmath
mp=mpmath.mp
PREC=320
def fr(v):
    """mpf -> Fraction"""
    m=mpmath.mpf(v); s,man,e,_=m._mpf_
    r=Q(int(man))*Q(2)**e; return -r if s else r
def mpq(q): return mpmath.mpf(q.numerator)/q.denominator
def up(q): return q*(1+Q(1,2**60)) if q>0 else q
EPS=Q(1,2**250)
def fin(co,tail):
    m=max(abs(c) for c in co); rem=tail+m*EPS*len(co)
    mn=abs(co[0])-sum(abs(c) for c in co[1:])-rem
    return co,rem,max(mn,Q(0))
NT=18
def _exp(c,d,L=1,sub=0):
    """e^(L x) - sub"""
    with mpmath.workprec(PREC):
        l=mpmath.mpf(1) if L==1 else mpmath.log(2)
        e=mpmath.exp(l*mpq(c)); co=[]; f=e
        for k in range(NT): co.append(fr(f)); f=f*l*mpq(d)/(k+1)
        tail=abs(fr(f))*2 if abs(d)<=Q(1,2) else None
        if sub: co[0]=fr(mpmath.expm1(mpq(c)))
    if tail is None: raise ValueError('segment too wide')
    return fin(co,tail)
def exp(c,d): return _exp(c,d)
def exp2(c,d): return _exp(c,d,2)
def expm1(c,d): return _exp(c,d,1,1)
def _log(c,d,base=None,shift=0):
    c0=c; c=c+shift
    q=abs(d)/c
    if q>Q(1,2): raise ValueError('segment too wide')
    with mpmath.workprec(PREC):
        s=mpmath.mpf(1) if base is None else 1/mpmath.log(base)
        co=[fr((mpmath.log1p(mpq(c0)) if shift else mpmath.log(mpq(c)))*s)]; r=d/c
        p=Q(1)
        S=fr(s)
        for k in range(1,NT): p=-p*r if k>1 else r; co.append(p*S/k); 
        tail=2*S*q**NT
    return fin(co,tail)
def log(c,d): return _log(c,d)
def log2(c,d): return _log(c,d,2)
def log10(c,d): return _log(c,d,10)
def log1p(c,d): return _log(c,d,None,1)
def sincos(c,d):
    with mpmath.workprec(PREC+1100 if abs(c)>2**60 else PREC+80):
        x=mpq(c); S=[mpmath.sin(x),mpmath.cos(x)]; D=mpq(d)
        s=[S[0],S[1],-S[0],-S[1]]; f=mpmath.mpf(1); a=[]; b=[]
        for k in range(NT):
            a.append(fr(s[k%4]*f)); b.append(fr(s[(k+1)%4]*f)); f=f*D/(k+1)
        tail=abs(fr(f))*2
    if abs(d)>Q(1,2): raise ValueError('segment too wide')
    return fin(a,tail+EPS),fin(b,tail+EPS)
def sin(c,d): return sincos(c,d)[0]
def cos(c,d): return sincos(c,d)[1]
def series(f,fprimes,c,d,tail):
    pass
def cbrt(c,d):
    q=abs(d/c)
    if q>Q(1,2): raise ValueError('segment too wide')
    with mpmath.workprec(PREC):
        k=fr(mpmath.cbrt(mpq(abs(c)))); k=k if c>0 else -k
    co=[k]; r=d/c; b=Q(1)
    for n in range(1,NT): b=b*(Q(1,3)-(n-1))/n*r; co.append(k*b)
    return fin(co,2*abs(k)*q**NT)
def _ode(c,d,coef0,rec,rho,M):
    """power series by recurrence; tail from |a_n| <= M/rho^n"""
    q=abs(d)/rho
    if q>Q(1,3): raise ValueError('segment too wide')
    a=list(coef0)
    while len(a)<NT: a.append(rec(a))
    co=[]; p=Q(1)
    for v in a: co.append(v*p); p*=d
    return fin(co,M*q**NT*2)
def atan(c,d):
    # (1+x^2) y' = 1 around c
    with mpmath.workprec(PREC): y0=fr(mpmath.atan(mpq(c)))
    g=1+c*c
    def rec(a):
        n=len(a)-1  # next index n+1 : (1+c^2)(n+1)a[n+1] + 2c n a[n] + (n-1) a[n-1] = [n==0]
        v=(1 if n==0 else 0)-2*c*n*a[n]-((n-1)*a[n-1] if n>=1 else 0)
        return rnd(v/(g*(n+1)))
    rho=Q(1) if abs(c)<1 else abs(c)  # singularities at +-i: distance sqrt(1+c^2)
    return _ode(c,d,[y0],rec,rho,Q(4))
def rnd(v):
    """keep the recurrences from growing: 400 significant bits"""
    if v==0: return v
    n=v.numerator.bit_length()-v.denominator.bit_length(); k=400-n; s=Q(2)**k
    return Q(round(v*s))/s
def asin(c,d):
    # (1-x^2) y'' = x y'; with p=y': (1-x^2) p' = x p
    with mpmath.workprec(PREC): y0=fr(mpmath.asin(mpq(c))); p0=fr(1/mpmath.sqrt(1-mpq(c)**2))
    g=1-c*c; p=[p0]
    # sum: g (n+1) p[n+1] - 2c n p[n] - (n-1) p[n-1] = c p[n] + p[n-1]
    while len(p)<NT:
        n=len(p)-1; v=2*c*n*p[n]+((n-1)*p[n-1] if n>=1 else 0)+c*p[n]+(p[n-1] if n>=1 else 0); p.append(rnd(v/(g*(n+1))))
    a=[y0]+[p[k]/(k+1) for k in range(NT-1)]
    rho=1-abs(c); q=abs(d)/rho
    if q>Q(1,3): raise ValueError('segment too wide')
    co=[]; z=Q(1)
    for v in a: co.append(v*z); z*=d
    return fin(co,4*q**NT)
def acos(c,d):
    co,rem,mn=asin(c,d)
    with mpmath.workprec(PREC): h=fr(mpmath.pi/2)
    return fin([h-co[0]]+[-v for v in co[1:]],rem)
def sqrt(c,d):
    q=abs(d/c)
    if q>Q(1,2): raise ValueError('segment too wide')
    with mpmath.workprec(PREC): k=fr(mpmath.sqrt(mpq(c)))
    co=[k]; r=d/c; b=Q(1)
    for n in range(1,NT): b=b*(Q(1,2)-(n-1))/n*r; co.append(k*b)
    return fin(co,2*abs(k)*q**NT)
