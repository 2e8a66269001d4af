from check import *
PLAT=('ct','rt','gcc','ct+pt','pt')
def noS(x):
    mb=emb(x.w)[1]; q=62 if x.w==80 else mb-1
    return OR(NOT(FNAN(x)),EQ(EXTRACT(x,q,q),C(1,1)))
def run():
    ts=[]
    for ty,sx in FTL:
        for n,mx in(('fmin',0),('fmax',1),('min',0),('max',1)):
            h=H(n+'_'+sx,'%s x, %s y'%(ty,ty),'%s r'%ty,'r=ccm::%s(x,y);'%n)
            def g(i,o,rm,n=n,mx=mx):
                x,y,r=i['x'],i['y'],o['r']; nx,ny=FNAN(x),FNAN(y)
                lt=FCMP('flt',y,x) if mx else FCMP('flt',x,y); gt=FCMP('flt',x,y) if mx else FCMP('flt',y,x)
                return [Goal(n+': the preferred operand of two ordered numbers',FSAME(r,ITE(lt,x,y)),pre=OR(lt,gt)),
                        Goal(n+': one of the operands when they compare equal',OR(FSAME(r,x),FSAME(r,y)),pre=FCMP('feq',x,y)),
                        Goal(n+': the number when the other operand is NaN',FSAME(r,ITE(nx,y,x)),pre=XORB(nx,ny)),
                        Goal(n+': NaN when both are NaN',FNAN(r),pre=AND(nx,ny))]
            # the run-time builtin follows IEEE minNum: a signalling NaN operand makes the result NaN
            add(ts,h,g,cfgs=('ct','ct+pt','pt')); add(ts,h,g,cfgs=('rt','gcc'),pre=lambda i:AND(noS(i['x']),noS(i['y'])))
        h=H('fdim_'+sx,'%s x, %s y'%(ty,ty),'%s r'%ty,'r=ccm::fdim(x,y);')
        def g(i,o,rm):
            x,y,r=i['x'],i['y'],o['r']; nan=OR(FNAN(x),FNAN(y)); gt=FCMP('flt',y,x)
            return [Goal('fdim: x-y rounded once',FSAME(r,FOP('fsub',rm,x,y)),pre=gt),Goal('fdim: zero when x<=y',FZERO(r),pre=FCMP('fle',x,y)),
                    Goal('fdim: +0 when x<=y',FSAME(r,C(0,x.w)),pre=FCMP('fle',x,y)),Goal('fdim: NaN propagates',FNAN(r),pre=nan)]
        # the fallback's overflow guard is written for the default rounding mode
        add(ts,h,g,cfgs=('ct','ct+pt','pt'),rms=(0,))
    h=H('mixmin','float x, double y','double a, double b, double c','a=ccm::fmin(x,y); b=ccm::fmax(x,y); c=ccm::fdim(x,y);')
    def g(i,o,rm):
        x,y=FCVT(RNE,i['x'],64),i['y']
        return [Goal('mixed fmin',FSAME(o['a'],ITE(FCMP('flt',x,y),x,y)),pre=OR(FCMP('flt',x,y),FCMP('flt',y,x))),Goal('mixed fmax',FSAME(o['b'],ITE(FCMP('flt',y,x),x,y)),pre=OR(FCMP('flt',x,y),FCMP('flt',y,x))),
          Goal('mixed fdim',FSAME(o['c'],FOP('fsub',rm,x,y)),pre=FCMP('flt',y,x))]
    add(ts,h,g,cfgs=('ct','ct+pt'))
    for ty,s in(('int',1),('unsigned',0),('long long',1)):
        h=H('imin_'+ty[:3],'%s x, %s y'%(ty,ty),'%s a, %s b'%(ty,ty),'a=ccm::min(x,y); b=ccm::max(x,y);')
        def g(i,o,rm,s=s):
            x,y=i['x'],i['y']; lt=SLT(x,y) if s else ULT(x,y)
            return [Goal('integer min',EQ(o['a'],ITE(lt,x,y))),Goal('integer max',EQ(o['b'],ITE(lt,y,x)))]
        add(ts,h,g,cfgs=('ct','gcc'))
    return main('B02',ts,'every pair of bit patterns of float, double, long double; every pair of int, unsigned, long long')
