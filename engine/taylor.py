"""Taylor-model view of floating-point terms of one variable, for accuracy goals.

A region is an interval of magnitude bits of one input inside a binade: x = c + d*t, t in [-1,1].  Every node of the executed
path becomes an exact polynomial in t, plus one symbol in [-1,1] per rounding (so compensated arithmetic cancels), plus a
remainder bound.  Conditions are decided by interval bounds; undecided ones split the region (exactly for tests on input
bits).  A coarse rounding that can give two grid points is followed for both.  The claim |result-f(x)| <= tol then is a
univariate polynomial query for z3 over t and the aggregated error."""
import sys,math,time
from fractions import Fraction as Q
import z3
from terms import *
import terms as tm, softfloat as sf
from real import PREC,EMIN,EMAX,BIAS,val,flog2,lsb,sf_bits,rne,qv
PB=150; DEG=14; NSYM=24; DBG=0
class Fail(Exception): pass
class Split(Exception):
    def __init__(s,t): s.t=t; Exception.__init__(s,'split')
class Fork(Exception):
    def __init__(s,t,vals): s.t=t; s.vals=vals
def sabs(s): return sum(abs(c) for v in s.values() for c in v)
SD=2
class TM:
    """(sum p[k] t^k + sum s[i]*eps_i + [-R,R]) * 2^e ; every value a multiple of 2^q (q None: unknown)"""
    __slots__=('p','e','s','R','q','_b')
    def __init__(s,p,e,sy,R,q): s.p=p; s.e=e; s.s=sy; s.R=R; s.q=q; s._b=None
    def bounds(s):
        """(lo,hi) as integers in units 2^e"""
        if s._b is None:
            p=s.p; r=s.R+sabs(s.s); lo=hi=p[0]
            for k in range(1,len(p)):
                if k&1: lo-=abs(p[k]); hi+=abs(p[k])
                elif p[k]>=0: hi+=p[k]
                else: lo+=p[k]
            s._b=(lo-r,hi+r)
        return s._b
    def rng(s):
        lo,hi=s.bounds(); f=Q(2)**s.e; return lo*f,hi*f
    def const(s): return len(s.p)==1 and not s.s and not s.R
    def exact(s): return not s.s and not s.R
def const(v):
    v=Q(v)
    if v==0: return TM([0],0,{},0,10**6)
    e=lsb(v)
    if e is None:
        e=flog2(v)-PB; n=round(v/Q(2)**e); return TM([n],e,{},1,None)
    return TM([int(v/Q(2)**e)],e,{},0,e)
def shr(n,k): return (n+(1<<(k-1)))>>k
def norm(t):
    """drop low bits beyond PB, trailing zero coefficients and small symbols"""
    m=max(max(abs(v) for v in t.p),t.R,*[abs(v[0]) for v in t.s.values()],1).bit_length()
    if m>PB+40 and not(t.exact() and len(t.p)<=2 and m<4000):
        k=m-PB; pp=[shr(v,k) for v in t.p]; ss={i:[shr(c,k) for c in v] for i,v in t.s.items()}
        t=TM(pp,t.e+k,ss,(t.R>>k)+1+len(pp)+3*len(ss),t.q)
    while len(t.p)>1 and t.p[-1]==0: t.p.pop()
    if len(t.p)>DEG+1:
        t.R+=sum(abs(v) for v in t.p[DEG+1:]); del t.p[DEG+1:]
    if len(t.s)>NSYM:
        o=sorted(t.s,key=lambda i:-abs(t.s[i][0]))
        for i in o[NSYM//2:]: t.R+=sum(abs(c) for c in t.s.pop(i))
    return t
def align(a,b):
    e=min(a.e,b.e)
    # far smaller exponents are absorbed into the remainder by norm afterwards
    return e,a.e-e,b.e-e
def add(a,b,sg=1):
    if a.const() and a.p[0]==0: return TM([sg*v for v in b.p],b.e,{i:[sg*c for c in v] for i,v in b.s.items()},b.R,b.q)
    if b.const() and b.p[0]==0: return a
    e,i,j=align(a,b); n=max(len(a.p),len(b.p))
    p=[((a.p[k]<<i) if k<len(a.p) else 0)+sg*((b.p[k]<<j) if k<len(b.p) else 0) for k in range(n)]
    s={k:[c<<i for c in v] for k,v in a.s.items()}
    for k,v in b.s.items():
        u=s.get(k)
        if u is None: s[k]=[sg*(c<<j) for c in v]
        else:
            m=max(len(u),len(v)); w=[(u[x] if x<len(u) else 0)+(sg*(v[x]<<j) if x<len(v) else 0) for x in range(m)]
            if any(w): s[k]=w
            else: del s[k]
    return norm(TM(p,e,s,(a.R<<i)+(b.R<<j),None if a.q is None or b.q is None else min(a.q,b.q)))
def neg(a): return TM([-v for v in a.p],a.e,{i:[-c for c in v] for i,v in a.s.items()},a.R,a.q)
def mul(a,b):
    p=[0]*(len(a.p)+len(b.p)-1)
    for i,x in enumerate(a.p):
        if x:
            for j,y in enumerate(b.p): p[i+j]+=x*y
    R=0; s={}
    sa=sabs(a.s); sb=sabs(b.s)
    for sx,q in((a.s,b.p),(b.s,a.p)):
        for i,v in sx.items():
            w=s.get(i)
            if w is None: w=s[i]=[0]
            for x,c in enumerate(v):
                if not c: continue
                for y,d in enumerate(q):
                    if not d: continue
                    if x+y<=SD:
                        while len(w)<=x+y: w.append(0)
                        w[x+y]+=c*d
                    else: R+=abs(c*d)
    R+=sa*sb
    ta=sum(abs(v) for v in a.p)+sa; tb_=sum(abs(v) for v in b.p)+sb
    R+=a.R*tb_+b.R*ta+a.R*b.R
    return norm(TM(p,a.e+b.e,s,R,None if a.q is None or b.q is None else a.q+b.q))
def inv(b):
    lo,hi=b.rng()
    if lo<=0<=hi: raise Fail('division by a range containing zero')
    c=(lo+hi)/2; c=val(sf_bits(c,64),64); dl=add(mul(b,const(1/c)),const(-1)); dl.q=None
    l,h=dl.rng(); m=max(abs(l),abs(h))
    if m>Q(1,4): raise Fail('divisor range too wide')
    K=1
    while m**(K+1)>Q(2)**-130 and K<40: K+=1
    r=const(1)
    for _ in range(K): r=add(const(1),mul(dl,r),-1)
    r=mul(r,const(1/c)); return widen(r,m**(K+1)/(1-m)/abs(c))
def widen(t,v):
    if v==0: return t
    k=v/Q(2)**t.e; n=math.ceil(k)
    if n<2 and k<Q(1,2):  # keep the unit fine enough
        j=80; t=TM([x<<j for x in t.p],t.e-j,{i:[c<<j for c in x] for i,x in t.s.items()},t.R<<j,t.q); n=math.ceil(v/Q(2)**t.e)
    return norm(TM(list(t.p),t.e,dict(t.s),t.R+n,None))
def sqrt(b):
    lo,hi=b.rng()
    if lo<=0: raise Fail('square root of a range reaching zero')
    c=(lo+hi)/2; c=val(sf_bits(c,64),64); dl=add(mul(b,const(1/c)),const(-1)); l,h=dl.rng(); m=max(abs(l),abs(h))
    if m>Q(1,4): raise Fail('radicand range too wide')
    k=2*((280-flog2(c))//2); r=math.isqrt(int(c*Q(2)**k)); rc=Q(r)/Q(2)**(k//2)
    co=[Q(1)]; K=1
    while m**(K+1)>Q(2)**-130 and K<40: K+=1
    for n in range(1,K+1): co.append(co[-1]*(Q(1,2)-(n-1))/n)
    t=const(co[K])
    for n in range(K-1,-1,-1): t=add(const(co[n]),mul(dl,t))
    t=widen(t,m**(K+1)/(1-m)); t=mul(t,const(rc)); return widen(t,Q(2)**-(k//2)*2)
def irng(n):
    lo,hi=n.rng(); return math.ceil(lo),math.floor(hi)  # the value is an integer
_ns=[0]
class Ctx:
    def __init__(s,name,w,sg,a,b,roots,choices,rm=0,inm=False):
        s.w=w; s.name=name; s.sg=sg; s.a=a; s.b=b; s.ch=choices; s.memo={}; s.cm={}
        mb=PREC[w]-1
        va,vb=val(a,w),val(b,w)
        s.c=(va+vb)/2; s.d=(vb-va)/2
        m=V('%s~m'%name,w-1) if a<b else C(a,w-1)
        s.m=m
        if roots[0] is not None and not(a<b and inm): s.roots=tm.substitute(list(roots),{V('%s~m'%name,w-1).id: m} if inm else {V(name,w).id: CONCAT(C(sg,1),m) if a<b else C((sg<<(w-1))|a,w)})
        else: s.roots=list(roots)
        s.u=lsbpow=max(EMIN[w],flog2(vb)-mb) if vb else EMIN[w]
        if a<b:
            if a>>mb!=b>>mb and not(a>>mb==0 and b>>mb<=1): raise Split(None)
            e=s.u-1; X=TM([int(s.c/Q(2)**e),int(s.d/Q(2)**e)],e,{},0,s.u)
            s.x=X
    # ---- values
    def fp(s,t):
        n=s.memo.get(t.id)
        if n is None:
            if t.id in s.ch: n=const(s.ch[t.id])
            else: n=s._fp(t)
            s.memo[t.id]=n
        return n
    def rnd(s,t,n,w,rm,q='q',exactop=False):
        p=PREC[w]; lo,hi=n.rng(); mx=max(abs(lo),abs(hi)); q=n.q if q=='q' else q
        if mx==0: return const(0)
        top=Q(2)**EMAX[w]
        if q is not None and q>=EMIN[w] and mx<=Q(2)**(p+q) and mx<top: return n
        mn=Q(0) if lo<=0<=hi else min(abs(lo),abs(hi))
        if exactop and mx<top and mn>=Q(2)**(EMIN[w]+p-1): n.q=flog2(mn)-p+1; return n
        if mx>=top-Q(2)**(EMAX[w]-p-1): raise Fail('overflow range')
        E=max(flog2(mx),EMIN[w]+p-1); ul=Q(2)**(E-p+1)
        if rm==0:
            a,b=rne(lo,w),rne(hi,w)
            if a==b: return const(a)
            k=(b-a)/ul
            if k<=2 and s.b-s.a>24 and mx<=Q(2)**(E+1):
                um=Q(2)**(max(flog2(mn) if mn else -10**5,EMIN[w]+p-1)-p+1)
                vs=[a]
                while vs[-1]<b and len(vs)<5: vs.append(vs[-1]+um)
                if vs[-1]==b: raise Fork(t,vs)
        err=ul/2 if rm==0 else ul
        nq=max(EMIN[w],flog2(mn)-p+1) if mn else EMIN[w]
        if q is not None and t.op in('fadd','fsub'): nq=max(nq,q)
        r=s.err(n,err,nq)
        if rm==0:
            # rounding is monotone: the result lies between the rounded bounds
            u,v=r.bounds(); f=Q(2)**r.e; r._b=(max(u,math.floor(a/f)),min(v,math.ceil(b/f)))
        return r
    def err(s,n,err,nq):
        e=lsb(err)
        if n.e>e: n=TM([x<<(n.e-e) for x in n.p],e,{i:[c<<(n.e-e) for c in x] for i,x in n.s.items()},n.R<<(n.e-e),n.q)
        c=int(err/Q(2)**n.e); _ns[0]+=1; sy=dict(n.s); sy[_ns[0]]=[c]
        r=norm(TM(list(n.p),n.e,sy,n.R,nq)); r.q=nq; return r
    def _fp(s,t):
        op=t.op; w=t.w
        if op=='c':
            v=val(t.p,w)
            if v is None: raise Fail('not finite')
            return const(v)
        if op=='ite': return s.fp(t.a[1] if s.decide(t.a[0]) else t.a[2])
        if op=='xor' and t.a[1].op=='c' and t.a[1].p==1<<(w-1): return neg(s.fp(t.a[0]))
        if op=='fabs' or (op=='zext' and t.a[0].op=='extract' and t.a[0].p==(w-2,0) and t.w==w and tm._natfp(t.a[0].a[0])):
            x=t.a[0] if op=='fabs' else t.a[0].a[0]; n=s.fp(x); lo,hi=n.bounds()
            if lo>=0: return n
            if hi<=0: return neg(n)
            raise Split(mk('flt',(C(0,w),x),0))
        if op=='concat' and t.a[0].op=='c' and t.a[0].w==1 and t.a[1] is s.m: return neg(s.x) if t.a[0].p else s.x
        rm=t.a[0].p if t.a and t.a[0].op=='c' and t.a[0].w==2 else 0
        if op in('sitofp','uitofp'):
            n=s.int(t.a[1],op=='sitofp')
            if isinstance(n,tuple): raise Split(t.a[1])
            return s.rnd(t,n,w,rm)
        if op in tm.FPOPS:
            a=[s.fp(x) for x in t.a[1:]]
            if op=='fcvt': return a[0] if w>=t.a[1].w else s.rnd(t,a[0],w,rm)
            if op in('fadd','fsub'): return s.rnd(t,add(a[0],a[1],1 if op=='fadd' else -1),w,rm)
            if op=='fmul':
                p2=any(z.const() and z.p[0] and abs(z.p[0])&(abs(z.p[0])-1)==0 for z in a)
                return s.rnd(t,mul(a[0],a[1]),w,rm,exactop=p2)
            if op=='fma': return s.rnd(t,add(mul(a[0],a[1]),a[2]),w,rm)
            if op=='fdiv': 
                p2=a[1].const() and abs(a[1].p[0])&(abs(a[1].p[0])-1)==0
                return s.rnd(t,mul(a[0],inv(a[1])),w,rm,q=None,exactop=p2)
            if op=='fsqrt': return s.rnd(t,sqrt(a[0]),w,rm,q=None)
            if op=='rti':
                lo,hi=a[0].rng(); f={0:lambda v:Q(round(v)),1:lambda v:Q(math.floor(v)),2:lambda v:Q(math.ceil(v)),3:lambda v:Q(math.trunc(v))}[rm]
                x,y=f(lo),f(hi)
                if x==y: return const(x)
                if y-x<=2: raise Fork(t,[x+k for k in range(int(y-x)+1)])
                raise Split(t)
            raise Fail(op)
        if op=='concat' and t.a[1].op=='c' and t.a[1].p==0 and t.a[0].op=='extract' and tm._natfp(t.a[0].a[0]) and t.a[0].p[0]==w-1 and t.a[0].a[0].w==w:
            # the value with its low bits cleared
            n=s.fp(t.a[0].a[0]); k=t.a[1].w; lo,hi=n.rng(); mx=max(abs(lo),abs(hi))
            if mx==0: return const(0)
            if n.const(): return const(val(s.cbits(n,w)>>k<<k,w))
            E=max(flog2(mx),EMIN[w]+PREC[w]-1); mn=Q(0) if lo<=0<=hi else min(abs(lo),abs(hi))
            e2=Q(2)**(E-PREC[w]+1+k); E0=max(flog2(mn),EMIN[w]+PREC[w]-1) if mn else EMIN[w]+PREC[w]-1
            nq=max(E0-PREC[w]+1+k,EMIN[w])
            return s.err(add(n,const(-e2/2 if lo>=0 else e2/2 if hi<=0 else 0)),e2/2 if lo>=0 or hi<=0 else e2,nq)
        n=s.int(t)
        if isinstance(n,tuple): raise Split(t)
        return s.frombits(t,n,w)
    def cbits(s,n,w):
        v=n.p[0]*Q(2)**n.e; return sf_bits(v,w)|((1<<(w-1)) if v<0 else 0)
    def frombits(s,t,n,w):
        mb=PREC[w]-1; lo,hi=irng(n); sb=1<<(w-1); sgn=0
        if n.const():
            v=val(lo,w)
            if v is None: raise Fail('not finite')
            return const(v)
        if lo>=sb: n=add(n,const(-sb)); lo-=sb; hi-=sb; sgn=1
        elif hi>=sb: raise Split(EXTRACT(t,w-1,w-1))
        if lo>>mb!=hi>>mb and not (hi&mask(mb)==0 and (hi-1)>>mb==lo>>mb): raise Split(EXTRACT(t,w-2,mb))
        E=lo>>mb
        if E>=mask(w-1-mb): raise Fail('not finite')
        r=mul(add(n,const((1<<mb)-(E<<mb))),const(Q(2)**(E-1+EMIN[w]))) if E else mul(n,const(Q(2)**EMIN[w]))
        r.q=E-1+EMIN[w] if E else EMIN[w]
        return neg(r) if sgn else r
    def int(s,t,signed=False):
        """an exact TM of the unsigned (signed) value, or an interval (lo,hi)"""
        k=(t.id,'i'); n=s.memo.get(k)
        if n is None: n=s.memo[k]=s._int(t)
        if signed:
            lo,hi=n if isinstance(n,tuple) else irng(n); H=1<<t.w
            if lo>=H//2: return (lo-H,hi-H) if isinstance(n,tuple) else add(n,const(-H))
            if hi>=H//2: raise Split(EXTRACT(t,t.w-1,t.w-1))
        return n
    def _int(s,t):
        op=t.op; w=t.w; H=1<<w
        if op=='c': return const(t.p)
        if t is s.m:
            # magnitude bits: linear in x inside a binade
            mb=PREC[s.w]-1; E=s.a>>mb
            return add(mul(s.x,const(Q(2)**-s.u)),const((max(E,1)-1)<<mb)) if True else None
        if op=='ite': return s.int(t.a[1] if s.decide(t.a[0]) else t.a[2])
        if op in tm.FPOPS or op=='fabs' or (op=='xor' and tm._natfp(t)):
            n=s.fp(t); mb=PREC[w]-1
            if n.const(): return const(s.cbits(n,w))
            lo,hi=n.rng()
            if lo>0 and flog2(lo)>=EMIN[w]+mb and (flog2(lo)==flog2(hi) or hi==Q(2)**(flog2(lo)+1)):
                E=flog2(lo); return add(mul(n,const(Q(2)**(mb-E))),const(((E+BIAS[w])<<mb)-(1<<mb)))
            if hi<0 and flog2(hi)>=EMIN[w]+mb and (flog2(lo)==flog2(hi) or -lo==Q(2)**(flog2(hi)+1)):
                E=flog2(hi); return add(mul(neg(n),const(Q(2)**(mb-E))),const(((E+BIAS[w])<<mb)-(1<<mb)+(1<<(w-1))))
            if lo>=0: return (sf_bits(lo,w),sf_bits(hi,w)+1)
            if hi<0: return ((1<<(w-1))+sf_bits(-hi,w),(1<<(w-1))+sf_bits(-lo,w)+1)
            raise Split(mk('flt',(t,C(0,w)),0))
        rg=lambda n: n if isinstance(n,tuple) else irng(n)
        if op=='tab':
            i=s.int(t.a[0]); lo,hi=rg(i)
            if lo!=hi: raise Split(t.a[0])
            return const(t.p[lo])
        if op=='zext': 
            if t.a[0].w==0: return const(int(s.decide(t.a[0])))
            return s.int(t.a[0])
        if op=='sext':
            n=s.int(t.a[0],True); lo,hi=rg(n)
            if lo>=0: return n
            if hi<0: return (lo+H,hi+H) if isinstance(n,tuple) else add(n,const(H))
            raise Split(EXTRACT(t.a[0],t.a[0].w-1,t.a[0].w-1))
        if op=='concat':
            r=s.shifted(t)
            if r is not None: return r
            x,y=s.int(t.a[0]),s.int(t.a[1]); k=1<<t.a[1].w
            if isinstance(x,tuple) or isinstance(y,tuple): a,b=rg(x),rg(y); return (a[0]*k+b[0],a[1]*k+b[1])
            return add(mul(x,const(k)),y)
        if op=='extract':
            h,l=t.p; n=s.int(t.a[0]); lo,hi=rg(n)
            if lo>>l==hi>>l: return const((lo>>l)&mask(w))
            if lo>>(h+1)==hi>>(h+1):
                c=(lo>>(h+1))<<(h+1)
                if l==0: return (lo-c,hi-c) if isinstance(n,tuple) else add(n,const(-c))
                return ((lo-c)>>l,(hi-c)>>l)
            raise Split(t)
        if op in('add','sub'):
            x,y=s.int(t.a[0]),s.int(t.a[1]); a,b=rg(x),rg(y)
            lo,hi=(a[0]+b[0],a[1]+b[1]) if op=='add' else (a[0]-b[1],a[1]-b[0])
            if not isinstance(x,tuple) and not isinstance(y,tuple):
                n=add(x,y,1 if op=='add' else -1); lo,hi=irng(n)
                if lo//H==hi//H: return add(n,const(-(lo//H)*H)) if lo//H else n
                raise Split(ULT(t,t.a[0]) if op=='add' else ULT(t.a[0],t))
            if lo//H!=hi//H: raise Split(ULT(t,t.a[0]) if op=='add' else ULT(t.a[0],t))
            k=lo//H; return (lo-k*H,hi-k*H)
        if op in('mul','bvmul') and any(x.op=='c' for x in t.a):
            c,y=(t.a[0].p,t.a[1]) if t.a[0].op=='c' else (t.a[1].p,t.a[0]); n=s.int(y); lo,hi=rg(n)
            if hi*c<H: return (lo*c,hi*c) if isinstance(n,tuple) else mul(n,const(c))
            if lo==hi: return const(lo*c%H)
            raise Split(t)
        if op in('fptosi','fptoui'):
            n=s.fp(t.a[1]); lo,hi=n.rng(); a,b=math.trunc(lo),math.trunc(hi)
            if a==b: return const(a%H)
            raise Split(t)
        args=[s.int(x) for x in t.a]
        if all(not isinstance(x,tuple) and x.const() for x in args):
            r=tm.rebuild(t,[C(int(n.p[0]*Q(2)**n.e),x.w) for n,x in zip(args,t.a)])
            if r.op=='c': return const(r.p)
        rs=[rg(x) for x in args]
        if op=='xor' and t.a[1].op=='c' and t.a[1].p==H-1: lo,hi=rs[0]; return (H-1-hi,H-1-lo)
        raise Split(t)
    def shifted(s,t):
        """concat(g(high part of X), low part of X) with g adding a constant: X plus that constant shifted"""
        y=t.a[1]
        if y.op!='extract' or y.p[1]: return None
        X=y.a[0]; k=y.w; n=s.res(t.a[0]); chain=0
        while not(n.op=='extract' and n.a[0] is X and n.p[1]==k) and not(n.op=='extract' and n.a[0] is s.res(X) and n.p[1]==k):
            chain+=1
            if chain>12: return None
            if n.op in('add','sub') and n.a[1].op=='c': n=n.a[0]
            elif n.op=='add' and n.a[0].op=='c': n=n.a[1]
            elif n.op=='extract' and n.p[1]==0: n=n.a[0]
            elif n.op=='zext' and n.a[0].w: n=n.a[0]
            elif n.op=='concat' and n.a[0].op=='c' and n.a[0].p==0: n=n.a[1]
            else: return None
        b=s.int(X); lo,hi=b if isinstance(b,tuple) else irng(b)
        if hi>>X.w or lo<0: return None
        h0,h1=lo>>k,hi>>k
        if (h0>>n.w)!=(h1>>n.w): return None
        g=s.int(t.a[0]); a,c=g if isinstance(g,tuple) else irng(g)
        if c-a!=h1-h0: return None
        d=(a-h0)<<k  # the chain adds a constant modulo a power of two and never wraps inside the range
        return (lo+d,hi+d) if isinstance(b,tuple) else add(b,const(d))
    def res(s,t):
        """the term with its decided branches taken"""
        k=(t.id,'r'); r=s.memo.get(k)
        if r is None:
            if t.op=='ite':
                try: r=s.res(t.a[1] if s.decide(t.a[0]) else t.a[2])
                except(Fail,Split,Fork): r=t
            elif t.a: r=tm.rebuild(t,[s.res(x) for x in t.a])
            else: r=t
            s.memo[k]=r
        return r
    def reduce(s,t,memo):
        r=memo.get(t.id)
        if r is None:
            if t.op=='ite':
                try: r=s.reduce(t.a[1] if s.decide(t.a[0]) else t.a[2],memo)
                except(Fail,Split,Fork): r=None
            if r is None: r=tm.rebuild(t,[s.reduce(x,memo) for x in t.a]) if t.a else t
            memo[t.id]=r
        return r
    def isexact(s,t):
        try: return s.fp(t).exact()
        except(Fail,Split,Fork): return False
    # ---- conditions
    def decide(s,c):
        if c.id in s.ch: return s.ch[c.id]
        r=s.cm.get(c.id)
        if r is None: r=s.cm[c.id]=s._decide(c)
        return r
    def _decide(s,c):
        op=c.op
        if op=='c': return bool(c.p)
        if op=='not': return not s.decide(c.a[0])
        if op in('and','or'):
            sp=None
            for x in c.a:
                try:
                    if s.decide(x)==(op=='or'): return op=='or'
                except(Fail,Split,Fork) as e: sp=sp or e
            if sp: raise sp
            return op=='and'
        if op=='ite': return s.decide(c.a[1] if s.decide(c.a[0]) else c.a[2])
        if op in('fisnan','fisinf'):
            s.fp(c.a[0]); return False
        if op in('flt','fle','feq','fsame'):
            for k in(0,1):
                q=c.a[k]
                if q.op=='c' and val(q.p,q.w) is None:
                    s.fp(c.a[1-k])
                    if sf.is_nan(q.p,q.w) or op in('feq','fsame'): return False
                    pos=not q.p>>(q.w-1); return (not pos) if k==0 else pos
            x,y=s.fp(c.a[0]),s.fp(c.a[1])
            d=add(x,y,-1); lo,hi=d.bounds()
            if op in('feq','fsame'):
                if lo>0 or hi<0: return False
                if lo==hi==0 and op=='feq': return True
                raise Split(c)
            if op=='flt':
                if hi<0: return True
                if lo>=0: return False
            else:
                if hi<=0: return True
                if lo>0: return False
            raise Split(c)
        if op=='eq' and c.a[0].w==0: return s.decide(c.a[0])==s.decide(c.a[1])
        if op in('eq','ult','slt'):
            f=s.field(c)
            if f is not None: return f
            g=[s.int(x,op=='slt') for x in c.a]; (a,b),(x,y)=[n if isinstance(n,tuple) else irng(n) for n in g]
            if op=='eq':
                if b<x or y<a: return False
                if a==b==x==y: return True
            else:
                if b<x: return True
                if a>=y: return False
            raise Split(c)
        raise Fail('condition '+op)
    def field(s,c):
        for k in(0,1):
            x,y=c.a[k],c.a[1-k]
            if y.op!='c': continue
            while x.op=='zext' and x.a[0].w: x=x.a[0]
            if y.p>mask(x.w) or x.op!='extract' or not tm._natfp(x.a[0]): return None
            t=x.a[0]; w=t.w; mb=PREC[w]-1; h,l=x.p; n=s.fp(t); lo,hi=n.rng()
            if h==w-1==l:
                if c.op!='eq': return None
                if lo>0: return y.p==0
                if hi<0: return y.p==1
                return None
            if h!=w-2: return None
            mx=max(abs(lo),abs(hi)); mn=Q(0) if lo<=0<=hi else min(abs(lo),abs(hi))
            a,b=sf_bits(mn,w)>>l,sf_bits(mx,w)>>l
            if c.op=='eq':
                if y.p<a or y.p>b: return False
                if a==b==y.p: return True
            elif c.op=='ult':
                if k==0:
                    if b<y.p: return True
                    if a>=y.p: return False
                else:
                    if a>y.p: return True
                    if b<=y.p: return False
        return None
def threshold(cx,t,a,b):
    """first magnitude in (a,b] where the concrete value of the term differs from its value at a"""
    if t.w>16: return None
    o=postorder([t]); nm=cx.m.p
    f=lambda v: evaluate([t],{nm:v},order=o)[0]
    fa=f(a); other=None
    if f(b)!=fa: other=b
    else:
        for k in range(1,16):
            v=a+(b-a)*k//16
            if f(v)!=fa: other=v; break
    if other is None: return None
    l,h=a,other
    while h-l>1:
        m=(l+h)//2
        if f(m)==fa: l=m
        else: h=m
    return h
def cut(a,b,w):
    x,y=val(a,w),val(b,w)
    m=sf_bits((x+y)/2,w) if y<=4*x else (a+b)//2
    return min(max(m,a),b-1)
def prove(root,name,w,sg,a,b,claim,stats,depth=60,budget=None,maxfail=2,maxw=None,rm=0):
    """claim(ctx,tm) -> True or reason; returns failing regions"""
    mb=PREC[w]-1
    todo=[]
    # one binade at a time
    lo=a
    while lo<=b:
        hi=min(b,((lo>>mb)+1<<mb)-1); rt,inm=root,False
        if hi>lo:
            try: cx=Ctx(name,w,sg,lo,hi,[root],{},rm); rt=cx.reduce(cx.roots[0],{}); inm=True
            except(Fail,Split,Fork): pass
        todo.append((lo,hi,{},depth,rt,inm)); lo=hi+1
    todo.reverse(); bad=[]; why=''
    while todo:
        a,b,ch,dp,rt,inm=todo.pop(); 
        if DBG: print(hex(a),hex(b),len(ch),dp,why)
        stats['regions']=stats.get('regions',0)+1
        if budget and budget()<3: bad.append((a,b,'out of time')); break
        if maxw and (val(b,w)-val(a,w))>maxw*val(a,w):
            m=cut(a,b,w); todo+=[(m+1,b,ch,dp,rt,inm),(a,m,ch,dp,rt,inm)]; continue
        why=None; m=None; cost=1
        try:
            cx=Ctx(name,w,sg,a,b,[rt],ch,rm,inm)
            r=claim(cx,cx.fp(cx.roots[0]))
            if r is True: continue
            why=r; m=None
        except Fork as e:
            for v in e.vals: todo.append((a,b,{**ch,e.t.id:v},dp,rt,inm))
            continue
        except Split as e:
            why='undecided %s'%(show(e.t,3) if e.t is not None else '')
            if e.t is not None and b>a:
                et=cx.res(e.t); pure=all(cx.isexact(x) for x in postorder([et]) if x.op in tm.FPOPS)
                m=threshold(cx,et,a,b)
                if m is not None: m-=1; cost=0 if pure else 1  # an exact threshold always makes progress
                if m is not None and not pure:
                    # the real threshold is blurred by rounding errors: leave a narrow band around it
                    g=max(64,(b-a)>>10)
                    if b-a<=4*g:
                        if e.t.w==0 and dp>0 and e.t.id not in ch:
                            todo+=[(a,b,{**ch,e.t.id:True},dp-1,rt,inm),(a,b,{**ch,e.t.id:False},dp-1,rt,inm)]; continue
                        m=None
                    else:
                        l,h=max(a,m-g),min(b,m+g); todo+=[(h+1,b,{},dp,rt,inm)]*(h<b)+[(l,h,ch,dp-1,rt,inm)]+[(a,l-1,{},dp,rt,inm)]*(l>a); continue
        except Fail as e: why=str(e)
        if a==b or dp<=0:
            bad.append((a,b,why))
            if len(bad)>=maxfail: break
            continue
        if m is None: m=cut(a,b,w)
        todo+=[(m+1,b,{},dp-cost,rt,inm),(a,m,{},dp-cost,rt,inm)]
    return bad
def polyval(p,e): return [v*Q(2)**e for v in p]
def solve(n,truth,tol,stats,lo=None):
    """no t in [-1,1], error in [-1,1]: |n(t)-f(t)| > tol; truth=(coefs,rem)"""
    co,rem=truth; f=Q(2)**n.e; N=max(len(n.p),len(co))
    df=[(n.p[k]*f if k<len(n.p) else 0)-(co[k] if k<len(co) else 0) for k in range(N)]
    E=(n.R+sabs(n.s))*f+rem
    # coefficients rounded to 40 bits below the tolerance; the dropped part goes into the error
    g=Q(2)**(flog2(tol)-40); out=[]
    for c in df:
        k=Q(round(c/g))*g; E+=abs(c-k); out.append(k)
    while len(out)>1 and out[-1]==0: out.pop()
    E=Q(math.ceil(E/g))*g
    t,e=z3.Real('t'),z3.Real('e'); s=z3.Solver(); s.set('timeout',3000)
    u=g  # scale so the numbers are small integers
    P=z3.RealVal(0)
    for c in reversed(out): P=P*t+z3.RealVal(int(c/u))
    T=z3.RealVal(math.floor(tol/u)); D=z3.RealVal(int(E/u))
    s.add(t>=-1,t<=1,e>=-1,e<=1,z3.Or(P+D*e>T,P+D*e<-T)); t0=time.time(); r=s.check()
    stats['lemmas']+=1; stats['secs']+=time.time()-t0; stats['max']=max(stats.get('max',0),time.time()-t0)
    worst=(max(abs(float(sum(c*Q(x,8)**k for k,c in enumerate(out)))) for x in range(-8,9))+float(E))/float(tol)
    if r==z3.unsat: stats['worst']=max(stats.get('worst',0),worst)
    return r==z3.unsat or '%s: error bound %.3g of the tolerance'%(r,worst)
def solvesign(n,pos,stats,top=None):
    """no t, error in [-1,1] with n(t)<=0 (pos) or n(t)>=0; and |n| below the overflow limit when given"""
    f=Q(2)**n.e; E=(n.R+sabs(n.s))*f; sg=1 if pos else -1
    co=[sg*v*f for v in n.p]; mx=max(abs(co[0]),Q(1,2**1100)); g=Q(2)**(flog2(mx)-60); out=[]
    for c in co:
        k=Q(round(c/g))*g; E+=abs(c-k); out.append(k)
    while len(out)>1 and out[-1]==0: out.pop()
    E=Q(math.ceil(E/g))*g
    t,e=z3.Real('t'),z3.Real('e'); s=z3.Solver(); s.set('timeout',3000); P=z3.RealVal(0)
    for c in reversed(out): P=P*t+z3.RealVal(int(c/g))
    D=z3.RealVal(int(E/g)); bad=[P+D*e<=0]
    if top is not None: bad.append(P+D*e>=z3.RealVal(math.floor(top/g)))
    s.add(t>=-1,t<=1,e>=-1,e<=1,z3.Or(*bad)); t0=time.time(); r=s.check()
    stats['lemmas']+=1; stats['secs']+=time.time()-t0; stats['max']=max(stats.get('max',0),time.time()-t0)
    return r==z3.unsat or '%s: sign or range not settled'%r
