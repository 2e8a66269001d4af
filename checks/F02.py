from check import *
import spec
def run():
    ts=[]
    for ty,sx in FTL:
        for fn,it in(('ldexp','int'),('scalbn','int'),('scalbn','long'),('scalbln','long')):
            h=H('%s_%s_%s'%(fn,it,sx),'%s x, %s n'%(ty,it),'%s r'%ty,'r=ccm::%s(x,n);'%fn)
            def g(i,o,rm,fn=fn):
                x,n=i['x'],i['n']; fin=AND(FFIN(x),NOT(FZERO(x))); want=spec.scale(x,n,rm)
                b=127 if x.w==32 else 1023; L=lambda k:SLE(C(k,n.w),n); U=lambda k:SLE(n,C(k,n.w)); rng=lambda a,z:AND(L(a),U(z))
                cs=[rng(-b+1,b),rng(b+1,2*b),L(2*b+1),rng(-2*b+40,-b),U(-2*b+39)] if x.w<80 and fn!='ldexp' else []
                return [Goal(fn+': x*2^n rounded once',EQ(o['r'],want),pre=fin,cases=cs),Goal(fn+': zero and infinity unchanged',EQ(o['r'],x),pre=OR(FZERO(x),FINF(x))),Goal(fn+': NaN gives NaN',FNAN(o['r']),pre=FNAN(x))]
            add(ts,h,g,cfgs=('rt','gcc')+(('ct',) if sx!='l' else ()))
    return main('F02',ts,'every pair of a float, double (all configurations) or canonical x87 long double (run-time dispatch) and an int or long exponent; every rounding mode at run time')
