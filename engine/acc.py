"""accuracy goals: |result - f(x)| <= k ulp(f(x)) over segments, against Taylor expansions of the mathematical function"""
from check import *
import taylor,truths,mpmath,real
from real import Q,PREC,EMIN,val,flog2,sf_bits
MP={'exp':mpmath.exp,'exp2':lambda x: mpmath.mpf(2)**x,'expm1':mpmath.expm1,'log':mpmath.log,'log2':lambda x: mpmath.log(x)/mpmath.log(2),'log10':lambda x: mpmath.log(x)/mpmath.log(10),'log1p':mpmath.log1p,
    'sin':mpmath.sin,'cos':mpmath.cos,'cbrt':mpmath.cbrt,'asin':mpmath.asin,'acos':mpmath.acos,'atan':mpmath.atan,'sqrt':mpmath.sqrt}
def fb(v,w): return sf_bits(abs(Q(v)),w)
def ulp(v,w): return Q(2)**(max(flog2(v),EMIN[w]+PREC[w]-1)-PREC[w]+1)
def claimer(fn,w,ulps,absu=None,lim=None):
    """tolerance: ulps units in the last place of the true value (absu: that many units of the last place of 1 instead)"""
    tr=getattr(truths,fn)
    def claim(cx,n,st):
        sg=cx.sg; c=-cx.c if sg else cx.c; d=-cx.d if sg else cx.d
        co,rem,mn=tr(c,d)
        if absu is not None: tol=Q(absu)*Q(2)**(1-PREC[w])
        elif mn<=0: tol=Q(ulps)*Q(2)**EMIN[w]
        else:
            mx=abs(co[0])+sum(abs(v) for v in co[1:])
            tol=Q(ulps)*ulp(mx if mx<mn*(1+Q(1,2**30)) else mn,w)
        if lim and not lim(n): return 'range'
        return taylor.solve(n,(co,rem),tol,st)
    return claim
def pyacc(nm,fn,w,ulps,absu=None,dom=lambda x: True):
    def py(ins,outs):
        x=val(ins[nm],w); r=val(outs['r'],w)
        if x is None or not dom(x): return True
        with mpmath.workprec(300 if abs(x)<2**60 else 1500):
            f=MP[fn](mpmath.mpf(x.numerator)/x.denominator)
            if isinstance(f,mpmath.mpc): return True
            f=truths.fr(f)
        if r is None: return False
        tol=Q(absu)*Q(2)**(1-PREC[w]) if absu is not None else Q(ulps)*(ulp(f,w) if f else Q(2)**EMIN[w])
        return abs(r-f)<=tol*(1+Q(1,2**30))
    return py
def addsign(ts,fn,ty,sx,segs,pos,cfg='ct',chunk=1,tag='',label='',timeout=400,expr=None,top=None,**kw):
    w=CT[ty][0]; h=H(fn+'_'+sx,'%s x'%ty,'%s r'%ty,'r=%s;'%(expr or 'ccm::%s(x)'%fn)); T=Q(2)**real.EMAX[w] if top is None else Q(top)
    def claim(cx,n,st): return taylor.solvesign(n,pos,st,T)
    for k in range(0,len(segs),chunk):
        rs=[seg('x',w,*s) if len(s)==2 else s for s in segs[k:k+chunk]]
        def py(ins,outs,rs=rs,w=w):
            v=ins['x']; s,m=v>>(w-1),v&mask(w-1)
            if not any(s==sg and a<=m<=b for _,sg,a,b in rs): return True
            r=val(outs['r'],w); return r is not None and (0<r<=T if pos else -T<=r<0)
        def sp(i,o,rm,rs=rs,py=py): return [TGoal(label,rs,claim,py=py)]
        add(ts,h,sp,cfgs=(cfg,),name='%s_%s%s_%d'%(fn,sx,tag,k//chunk),nsamp=6,timeout=timeout,plain=True,traps=(k==0),**kw)
def seg(nm,w,a,b):
    """value interval [a,b] (one sign) -> region"""
    sg=int(a<0 or b<0); lo,hi=sorted((fb(a,w),fb(b,w))); return (nm,sg,lo,hi)
def addacc(ts,fn,ty,sx,segs,ulps,cfg='ct',absu=None,chunk=1,tag='',label=None,timeout=400,expr=None,dom=None,lim=None,**kw):
    """one task per chunk of segments"""
    w=CT[ty][0]; h=H(fn+'_'+sx,'%s x'%ty,'%s r'%ty,'r=%s;'%(expr or 'ccm::%s(x)'%fn))
    lab=label or '%s(x) is within %s of the true value'%(fn,'%s ulp'%ulps if absu is None else '%s units in the last place of 1'%absu)
    allr=[seg('x',w,*s) if len(s)==2 else s for s in segs]
    for k in range(0,len(allr),chunk):
        rs=allr[k:k+chunk]
        def inr(v,rs=rs,w=w):
            s,m=v>>(w-1),v&mask(w-1); return any(s==sg and a<=m<=b for _,sg,a,b in rs)
        p0=pyacc('x',fn,w,ulps,absu)
        def py(ins,outs,p0=p0,inr=inr): return (not inr(ins['x'])) or p0(ins,outs)
        def sp(i,o,rm,rs=rs,py=py): return [TGoal(lab,rs,claimer(fn,w,ulps,absu,lim),py=py)]
        add(ts,h,sp,cfgs=(cfg,),name='%s_%s%s_%d'%(fn,sx,tag,k//chunk),nsamp=6,timeout=timeout,plain=True,traps=(k==0),**kw)
