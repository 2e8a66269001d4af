from check import *
OPS={'floor':lambda x:FOP('rti',RTN,x),'ceil':lambda x:FOP('rti',RTP,x),'trunc':lambda x:FOP('rti',RTZ,x),'round':RTI_A}
def run():
    ts=[]
    for ty,sx in FTL:
        for n,spec in OPS.items():
            h=H(n+'_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::%s(x);'%n)
            def goals(i,o,rm,spec=spec,n=n):
                return [Goal('%s(x) is the IEEE integral value'%n,FSAME(o['r'],spec(i['x'])))]
            add(ts,h,goals)
    for n in OPS:
        h=H(n+'_i','int x','double r','r=ccm::%s(x);'%n)
        add(ts,h,lambda i,o,rm,n=n:[Goal('%s(int) is the same number'%n,FSAME(o['r'],ITOF('sitofp',RNE,i['x'],64)))],cfgs=('ct','gcc'))
    return main('N01',ts,'every bit pattern of float, double and canonical x87 long double; loops fully unwound; run-time paths for every rounding mode at once')
