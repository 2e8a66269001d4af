from check import *
def run():
    ts=[]
    for ty,sx in FTL:
        for n in('rint','nearbyint'):
            h=H(n+'_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::%s(x);'%n)
            add(ts,h,lambda i,o,rm,n=n:[Goal('%s(x) is the integral value of the active mode'%n,FSAME(o['r'],FOP('rti',rm,i['x'])))])
        # the mode-parametric kernel behind both, under each explicit mode
        for k,m in enumerate(() if sx=='l' and TIER=='quick' else ('FE_TONEAREST','FE_DOWNWARD','FE_UPWARD','FE_TOWARDZERO')):
            h=H('dir%d_%s'%(k,sx),'%s x'%ty,'%s r'%ty,'r=ccm::support::fp::directional_round(x,%s);'%m)
            add(ts,h,lambda i,o,rm,k=k,m=m:[Goal('directional_round(x,%s)'%m,FSAME(o['r'],FOP('rti',C(k,2),i['x'])))],cfgs=('ct',) if sx=='l' else ('ct','gcc'))
    return main('N02',ts,'every bit pattern of float, double and canonical x87 long double; every rounding mode',
      extra_explain='Exception flags are not modelled.')
