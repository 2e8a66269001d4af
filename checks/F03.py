from check import *
import spec
def run():
    ts=[]
    for ty,sx in FTL:
        h=H('modf_'+sx,'%s x'%ty,'%s f, %s i'%(ty,ty),'f=ccm::modf(x,&i);')
        def g(i,o,rm):
            x=i['x']; nan=FNAN(x); ii,f=spec.modf(x)
            return [Goal('modf: integral part is x truncated, signed',FSAME(o['i'],ii)),Goal('modf: exact signed fraction',FSAME(o['f'],f)),
                    Goal('modf: integral part and fraction add up to x',FCMP('feq',FOP('fadd',RNE,o['i'],o['f']),x),pre=FFIN(x)) if x.w==32 else Goal('modf(NaN)',AND(FNAN(o['i']),FNAN(o['f'])),pre=nan)]
        add(ts,h,g,cfgs=('rt','gcc','pt')+(('ct','ct+pt') if sx!='l' else ()))
    return main('F03',ts,'every bit pattern of float, double (all configurations) and canonical x87 long double (run time); every rounding mode')
