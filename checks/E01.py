from check import *
import real,mpmath
from real import Q
mpmath.mp.prec=200
ABS=('fadd','fsub','fmul','fdiv','fma','fsqrt')
def fb(v,w):
    """bits of the largest magnitude not above v"""
    return real.sf_bits(Q(v) if not isinstance(v,str) else Q(v),w)
def mx(w): return (mask(w-1)>>(real.PREC[w]-1)<<(real.PREC[w]-1))-1
def isf(n): return not isinstance(n,str)
def txt(n): return n if isinstance(n,str) else 'range %.6g..%.6g'%(float(n.lo),float(n.hi))
def positive(c,n): return isf(n) and (n.lo>0 or c.proves(n.e>0)) or txt(n)
def inf(c,n): return n=='inf' or txt(n)
def tiny(w): return lambda c,n: isf(n) and n.lo>=0 and n.hi<=Q(2)**real.EMIN[w] or txt(n)
def within(lo,hi,strict=0):
    def f(c,n):
        if not isf(n): return txt(n)
        a=n.lo>=lo or c.proves(n.e>=real.qv(Q(lo))); b=n.hi<=hi or c.proves(n.e<=real.qv(Q(hi)))
        return a and b or txt(n)
    return f
TH={('exp',64):('709.7827','709.7828','745.13','745.14'),('exp',32):('88.7228','88.7229','103.97','103.98'),
    ('exp2',64):('1023.9999999','1024','1074','1075.0001'),('exp2',32):('127.99999','128','149','150.0001')}
def run():
    ts=[]
    for ty,sx in FT:
        w=CT[ty][0]; one=real.BIAS[w]<<(real.PREC[w]-1); M=mx(w)
        for fn in('exp','exp2'):
            h=H(fn+'_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::%s(x);'%fn); a,b,u,z=TH[fn,w]
            def spec(i,o,rm,w=w,one=one,fn=fn):
                x,r=i['x'],o['r']; P=C(mask(w-1)>>(real.PREC[w]-1)<<(real.PREC[w]-1),w); S=C(1<<(w-1),w)
                return [Goal(fn+'(NaN) is NaN',FNAN(r),pre=FNAN(x),absops=ABS),Goal(fn+'(+-0) is 1',EQ(r,C(one,w)),pre=FZERO(x)),Goal(fn+'(+inf) is +inf',EQ(r,P),pre=EQ(x,P)),Goal(fn+'(-inf) is +0',EQ(r,C(0,w)),pre=EQ(x,BOR(P,S)))]
            add(ts,h,spec,cfgs=('ct',))
            def pos(i,o,rm,w=w,a=a,fn=fn):
                e=fb(a,w); c=fb(float(a)*0.98,w)
                return [RGoal(fn+'(x) is finite and positive below the overflow threshold',i,[{'x':(0,0,c)},{'x':(0,c+1,e)}],positive,goal=AND(FFIN(o['r']),FCMP('flt',C(0,w),o['r'])))]
            def over(i,o,rm,w=w,b=b,fn=fn,M=M): return [RGoal(fn+'(x) is +inf above the overflow threshold',i,[{'x':(0,fb(b,w),M)}],inf,goal=EQ(o['r'],C(M+1,w)))]
            def under(i,o,rm,w=w,z=z,fn=fn,M=M): return [RGoal(fn+'(x) is zero or the smallest subnormal below the underflow threshold',i,[{'x':(1,fb(z,w),M)}],tiny(w),goal=ULE(o['r'],C(1,w)))]
            gs=[('pos',pos),('over',over),('under',under)]
            cuts=[0.0,708.0,709.0,715.0,725.0,735.0,739.0,742.0,744.0,float(u)] if (fn,w)==('exp',64) else [0.0,float(u)*0.98,float(u)]
            for k in range(len(cuts)-1):
                def neg(i,o,rm,w=w,lo=fb(cuts[k],w)+(k>0),hi=fb(cuts[k+1],w),fn=fn): return [RGoal(fn+'(x) is positive above the underflow threshold',i,[{'x':(1,lo,hi)}],positive,goal=AND(FFIN(o['r']),FCMP('flt',C(0,w),o['r'])))]
                gs.append(('neg%d'%k,neg))
            for n,g in gs: add(ts,h,g,cfgs=('ct',),name='%s_%s_%s'%(fn,sx,n),nsamp=8,timeout=300,plain=True)
        h=H('expm1_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::expm1(x);'); a,b,u,z=TH['exp',w]
        def spec(i,o,rm,w=w,one=one):
            x,r=i['x'],o['r']; P=C(mask(w-1)>>(real.PREC[w]-1)<<(real.PREC[w]-1),w); S=C(1<<(w-1),w)
            return [Goal('expm1(NaN) is NaN',FNAN(r),pre=FNAN(x),absops=ABS),Goal('expm1(+-0) is the zero itself',EQ(r,x),pre=FZERO(x)),Goal('expm1(+inf) is +inf',EQ(r,P),pre=EQ(x,P)),Goal('expm1(-inf) is -1',EQ(r,C(one|1<<(w-1),w)),pre=EQ(x,BOR(P,S)))]
        add(ts,h,spec,cfgs=('ct',))
        def pos(i,o,rm,w=w,a=a): 
            e=fb(a,w); c=fb(float(a)*0.98,w)
            return [RGoal('expm1(x) is finite and positive for positive x below the overflow threshold',i,[{'x':(0,1,fb(0.25,w)-1)},{'x':(0,fb(0.25,w),c)},{'x':(0,c+1,e)}],positive,goal=AND(FFIN(o['r']),FCMP('flt',C(0,w),o['r'])))]
        def neg(i,o,rm,w=w,one=one,M=M): 
            def cl(c,n): return isf(n) and n.lo>=-1 and (n.hi<0 or c.proves(n.e<0)) or txt(n)
            return [RGoal('expm1(x) lies in [-1,0) for negative x',i,[{'x':(1,1,fb(0.25,w)-1)},{'x':(1,fb(0.25,w),fb(60,w))},{'x':(1,fb(60,w)+1,M)}],cl,goal=AND(FCMP('fle',C(one|1<<(w-1),w),o['r']),FCMP('flt',o['r'],C(0,w))))]
        def over(i,o,rm,w=w,b=b,M=M): return [RGoal('expm1(x) is +inf above the overflow threshold',i,[{'x':(0,fb(b,w),M)}],inf,goal=EQ(o['r'],C(M+1,w)))]
        for n,g in(('pos',pos),('neg',neg),('over',over)): add(ts,h,g,cfgs=('ct',),name='expm1_%s_%s'%(sx,n),nsamp=8,timeout=300,plain=True)
    return main('E01',ts,'the library\'s own kernels (compile-time path), float and double, round to nearest: every bit pattern except arguments within 1.3e-5 (double exp), 1e-2 (float exp, underflow side) or one unit (exp2, underflow side) of the overflow/underflow thresholds',
      assumptions=['range goals: IEEE operations are the exact real operation with relative error at most 2^-p (plus half the smallest subnormal for products and quotients); z3 decides the resulting linear real/integer constraints'])
