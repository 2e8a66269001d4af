from check import *
PLAT=('ct','rt','gcc','ct+pt','pt')
def run():
    ts=[]
    for ty,sx in FTL:
        h=H('fabs_'+sx,'%s x'%ty,'%s r, %s q'%(ty,ty),'r=ccm::fabs(x); q=ccm::abs(x);')
        def g(i,o,rm):
            x=i['x']; nan=FNAN(x); want=FABS(x)
            return [Goal(n+': magnitude of x, sign cleared',AND(FSAME(o[v],want),NOT(neg_p(o[v]))),pre=NOT(nan)) for n,v in(('fabs','r'),('abs','q'))]+[Goal(n+'(NaN) is NaN',FNAN(o[v]),pre=nan) for n,v in(('fabs','r'),('abs','q'))]
        add(ts,h,g,cfgs=PLAT)
        h=H('cps_'+sx,'%s x, %s y'%(ty,ty),'%s r'%ty,'r=ccm::copysign(x,y);')
        def g(i,o,rm):
            x,y=i['x'],i['y']; nan=FNAN(x); want=CONCAT(sign_of(y),EXTRACT(x,x.w-2,0))
            return [Goal('copysign: magnitude of x, sign of y',EQ(o['r'],want),pre=NOT(nan)),
                    Goal('copysign(NaN,y) is a NaN with the sign of y',AND(FNAN(o['r']),EQ(sign_of(o['r']),sign_of(y))),pre=nan)]
        add(ts,h,g,cfgs=PLAT)
    for ty in('int','long long'):
        h=H('iabs_'+ty[:3],'%s x'%ty,'%s r'%ty,'r=ccm::abs(x);')
        add(ts,h,lambda i,o,rm:[Goal('abs(int) is |x|',EQ(o['r'],ITE(SLT(i['x'],C(0,i['x'].w)),NEG(i['x']),i['x'])))],cfgs=('ct','gcc'),pre=lambda i:NE(i['x'],C(1<<(i['x'].w-1),i['x'].w)))
    for ty in('int','unsigned','long long'):
        # integer operands convert to double
        w=CT[ty][0]; sg=ty!='unsigned'; cast='(double)'
        h=H('icps_'+ty[:3],'%s x, %s y'%(ty,ty),'double r','r=ccm::copysign(x,y);')
        def g(i,o,rm,sg=sg):
            x,y=i['x'],i['y']; X=ITOF('sitofp' if sg else 'uitofp',rm,x,64); neg=SLT(y,C(0,y.w)) if sg else FALSE
            return [Goal('copysign of integers: magnitude of (double)x, sign of y',EQ(o['r'],CONCAT(ITE(neg,C(1,1),C(0,1)),EXTRACT(X,62,0))))]
        add(ts,h,g,cfgs=('ct','rt','gcc'))
        h=H('ifab_'+ty[:3],'%s x'%ty,'double r','r=ccm::fabs(x);')
        def g(i,o,rm,sg=sg):
            X=ITOF('sitofp' if sg else 'uitofp',rm,i['x'],64)
            return [Goal('fabs of an integer: magnitude of (double)x',EQ(o['r'],CONCAT(C(0,1),EXTRACT(X,62,0))))]
        add(ts,h,g,cfgs=('ct','rt','gcc'))
    h=H('chgsign','double x','double r','r=ccm::ext::chgsign(x);')
    return main('B01',ts,'every bit pattern (and pair) of float, double and canonical x87 long double; every int/long long but the minimum')
