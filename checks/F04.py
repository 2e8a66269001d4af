from check import *
import spec
def run():
    ts=[]
    for ty,sx in FTL:
        h=H('ilogb_'+sx,'%s x'%ty,'int e, %s l'%ty,'e=ccm::ilogb(x); l=ccm::logb(x);')
        def g(i,o,rm):
            x=i['x']; fin=AND(FFIN(x),NOT(FZERO(x)))
            return [Goal('ilogb: floor(log2|x|)',EQ(o['e'],spec.ilogb(x)),pre=fin),Goal('ilogb: FP_ILOGB0, INT_MAX, FP_ILOGBNAN',EQ(o['e'],spec.ilogb(x)),pre=NOT(fin)),
                    Goal('logb: floor(log2|x|)',FSAME(o['l'],spec.logb(x)),pre=fin),Goal('logb: -inf, +inf, NaN',FSAME(o['l'],spec.logb(x)),pre=NOT(fin))]
        add(ts,h,g,cfgs=('rt','gcc','pt')+(('ct','ct+pt') if sx!='l' else ()))
    return main('F04',ts,'every bit pattern of float, double (all configurations) and canonical x87 long double (run time)')
