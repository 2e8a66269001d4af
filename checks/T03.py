from acc import *
import math
def run():
    ts=[]; deep=TIER=='thorough'
    for ty,sx in FT:
        w=CT[ty][0]; dbl=ty=='double'; lim=fb(2.0**(20 if dbl else 18),w)
        B=lambda e,s=0,w=w: ('x',s,max(1,fb(Q(2)**e,w)),fb(Q(2)**(e+1),w)-1)
        small=lambda i,lim=lim,w=w: ULT(EXTRACT(i['x'],w-2,0),C(lim,w-1))
        for fn in('sin','cos'):
            tiny=[B(e,s) for e in((-1074,-1022,-300,-60,-28,-27,-26) if dbl else(-149,-126,-60,-26,-14)) for s in(0,1)]+[(2.0**-20,2.0**-12),(-2.0**-12,-2.0**-20)]
            if not dbl: S=[(2.0**-12,.125),(-.125,-2.0**-12)]+[(k/4,(k+1)/4) for k in range(1,200 if deep else 52)]+[(.125,.25),(-.25,-.125)]+[(-(k+1)/4,-k/4) for k in range(1,60 if deep else 16)]+[(a,a+.25) for a in(64.0,100.0,500.0,1000.0,4096.0,12345.0,65536.0,100000.0,200000.0,262143.5)]
            else: S=[(2.0**-12,.0625),(-.0625,-2.0**-12),(.0625,.25),(-.25,-.0625)]+[(k/4,(k+1)/4) for k in range(1,200 if deep else 40)]+[(-(k+1)/4,-k/4) for k in range(1,30 if deep else 12)]+[(a,a+.25) for a in(100.0,1000.0,12345.0,131072.0,600000.0,1048575.5)]
            addacc(ts,fn,ty,sx,tiny+S,None,absu=2,chunk=6,lazy=250,pre=small)
    return main('T03',ts,'own kernels (compile-time path), round to nearest: every argument of the listed windows below 2^18 (float) and 2^20 (double); float: [-4,13], double: [-3,10], (below 2^-20: sampled binades), and windows up to the end of the Cody-Waite reduction',
      assumptions=['the reference is the Taylor expansion of sin/cos with a 400-bit expansion point evaluation (mpmath) and an analytic tail bound'])
