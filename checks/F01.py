from check import *
import spec
def run():
    ts=[]
    for ty,sx in FTL:
        for fn,call in(('frexp','ccm::frexp(x,&e)'),)+((('frexpf','ccm::frexpf(x,e)'),) if sx=='f' else ()):
            h=H(fn+'_'+sx,'%s x'%ty,'%s m, int e'%ty,'e=77; m=%s;'%call)
            def g(i,o,rm):
                x=i['x']; nan=FNAN(x); m,e=spec.frexp(x); fin=AND(FFIN(x),NOT(FZERO(x)))
                return [Goal('frexp: the exact fraction in [1/2,1)',EQ(o['m'],m),pre=fin),Goal('frexp: the exponent with m*2^e = x',EQ(o['e'],e),pre=fin),
                        Goal('frexp: zero and infinity unchanged',EQ(o['m'],x),pre=OR(FZERO(x),FINF(x))),Goal('frexp: zero stores exponent 0',EQ(o['e'],C(0,32)),pre=FZERO(x)),Goal('frexp: NaN gives NaN',FNAN(o['m']),pre=nan)]
            # long double constant evaluation converts to double first (clang cannot inspect x87 bits there): outside this property
            add(ts,h,g,cfgs=('rt','pt','ct+pt','ct') if sx!='l' else ('rt','pt'))
            add(ts,h,g,cfgs=('gcc',))
    return main('F01',ts,'every bit pattern of float, double (all configurations) and canonical x87 long double (run time)')
