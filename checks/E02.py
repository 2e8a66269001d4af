from acc import *
ABS=('fadd','fsub','fmul','fdiv','fma','fsqrt')
def run():
    ts=[]; deep=TIER=='thorough'
    for ty,sx in FT:
        w=CT[ty][0]; one=real.BIAS[w]<<(real.PREC[w]-1); M=(mask(w-1)>>(PREC[w]-1)<<(PREC[w]-1))-1
        P=C(M+1,w); S=1<<(w-1); NI=C(S|(M+1),w)
        bin_=lambda e,w=w,M=M: ('x',0,max(1,fb(Q(2)**e,w)),min(M,(fb(Q(2)**(e+1),w)-1)) if e+1<real.EMAX[w] else M)
        neg=lambda r: ('x',1)+r[2:]
        for fn in('log','log2','log10'):
            h=H(fn+'_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::%s(x);'%fn)
            def spec(i,o,rm,fn=fn,w=w,one=one,P=P,NI=NI):
                x,r=i['x'],o['r']
                return [Goal(fn+'(1) is +0',EQ(r,C(0,w)),pre=EQ(x,C(one,w))),Goal(fn+'(+-0) is -inf',EQ(r,NI),pre=FZERO(x)),
                  Goal(fn+' of a negative number (or -inf) is NaN',FNAN(r),pre=FCMP('flt',x,C(0,w)),absops=ABS),
                  Goal(fn+'(+inf) is +inf',EQ(r,P),pre=EQ(x,P)),Goal(fn+'(NaN) is NaN',FNAN(r),pre=FNAN(x),absops=ABS)]
            add(ts,h,spec,cfgs=('ct','rt'))
            if ty=='float': up,dn=list(range(0,128)),list(range(-149,0))
            elif deep: up,dn=list(range(0,12))+list(range(12,1024,9)),list(range(-1074,-12,9))+list(range(-12,0))
            else: up,dn=[0,1,20,1023],[-1074,-1023,-1022,-700,-2,-1]
            n=16 if ty=='float' else 8 if deep else 1
            R=[bin_(e) for e in up]
            if R[0][2]==one: R[0]=('x',0,one+1,R[0][3])
            addsign(ts,fn,ty,sx,R,True,chunk=n,tag='_up',label=fn+'(x) is finite and positive above 1')
            addsign(ts,fn,ty,sx,[bin_(e) for e in dn],False,chunk=n,tag='_dn',label=fn+'(x) is finite and negative below 1')
        fn='log1p'; h=H('log1p_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::log1p(x);')
        def spec(i,o,rm,w=w,one=one,P=P,NI=NI,S=S):
            x,r=i['x'],o['r']
            return [Goal('log1p(+-0) is the zero itself',EQ(r,x),pre=FZERO(x)),Goal('log1p(-1) is -inf',EQ(r,NI),pre=EQ(x,C(one|S,w))),
              Goal('log1p below -1 is NaN',FNAN(r),pre=FCMP('flt',x,C(one|S,w)),absops=ABS),Goal('log1p(+inf) is +inf',EQ(r,P),pre=EQ(x,P)),Goal('log1p(NaN) is NaN',FNAN(r),pre=FNAN(x),absops=ABS)]
        add(ts,h,spec,cfgs=('ct',))
        if ty=='float': up=list(range(-149,128)); dn=list(range(-149,0)); n=16
        elif deep: up=list(range(-1074,1024,9))+list(range(-56,56)); dn=[e for e in up if e<0]; n=8
        else: up=[-1074,-1022,-54,-53,-52,-30,-4,-2,-1,0,1,20,53,1023]; dn=[e for e in up if e<0]; n=1
        addsign(ts,fn,ty,sx,[bin_(e) for e in up],True,chunk=n,tag='_p',label='log1p(x) is finite and positive for positive x')
        addsign(ts,fn,ty,sx,[neg(bin_(e)) for e in dn],False,chunk=n,tag='_n',label='log1p(x) is finite and negative for negative x above -1')
    return main('E02',ts,'special arguments for every bit pattern (log, log2 and log10 also on the run-time path); sign and finiteness on the own kernels in round to nearest: every finite float argument, and every double argument of the listed binades',assumptions=[])
