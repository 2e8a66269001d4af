from acc import *
def run():
    ts=[]; deep=TIER=='thorough'
    for ty,sx in FT:
        w=CT[ty][0]; one=real.BIAS[w]<<(PREC[w]-1); M=(mask(w-1)>>(PREC[w]-1)<<(PREC[w]-1))-1; dbl=ty=='double'
        B=lambda e,s=0,w=w,M=M: ('x',s,max(1,fb(Q(2)**e,w)),min(M,(fb(Q(2)**(e+1),w)-1)) if e+1<real.EMAX[w] else M)
        n=1 if dbl and not deep else 8 if dbl else 12
        up=list(range(-149,128)) if not dbl else [-1074,-1022,-500,-60,-53,-10,-5,-4,-3,-2,-1,0,1,5,30,52,54,900,1023] if not deep else list(range(-1074,1024,10))+list(range(-56,56))
        addacc(ts,'log1p',ty,sx,[B(e) for e in up],3,chunk=n,tag='_p')
        addacc(ts,'log1p',ty,sx,[B(e,1) for e in up if e<-1]+[('x',1,fb(1-Q(2)**-k,w),fb(1-Q(2)**(-k-1),w)-1) for k in (range(1,PREC[w]) if deep or not dbl else (1,2,3,20,51,52))],3,chunk=n,tag='_n')
        up=list(range(-149,128)) if not dbl else [-1074,-1022,-500,-10,-2,-1,0,1,2,10,100,1023] if not deep else list(range(-1074,1024,10))+list(range(-6,6))
        addacc(ts,'log10',ty,sx,[B(e) for e in up],3,chunk=n,tag='_l')
        # expm1: up to the overflow threshold / -1
        up=list(range(-149,-3)) if not dbl else [-1074,-1022,-500,-60,-54,-53,-10,-6,-5,-4]
        S=[B(e,s) for e in up for s in(0,1)]
        if not dbl: S+=[(a,a+.125) for a in(.125,.25,.375,.5,.625,.75,.875)]+[(-a-.125,-a) for a in(.125,.25,.375,.5,.625,.75,.875)]+[(float(k),float(k+1)) for k in range(1,88)]+[(88.0,88.72)]+[(-float(k+1),-float(k)) for k in range(1,30)]
        else: S+=[(.125,.1875),(.1875,.25),(.25,.3125),(-.1875,-.125),(-.25,-.1875),(-.3125,-.25),(.5,.6),(-.6,-.5),(1.0,1.1),(-1.1,-1.0),(20.0,20.1),(-30.1,-30.0),(500.0,500.05),(511.98,512.02),(709.7,709.78),(-745.0,-744.9)]
        addacc(ts,'expm1',ty,sx,S,3,chunk=n,tag='_e')
    return main('E05',ts,'own kernels (compile-time path), round to nearest; float: log1p and log10 for every argument, expm1 on [-30,88.72]; double: every argument of the listed binades and windows',
      assumptions=['the reference is the Taylor expansion of the true function with a 300-bit expansion point evaluation (mpmath) and an analytic tail bound'])
