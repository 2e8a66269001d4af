from check import *
import spec
def run():
    ts=[]
    for ty,sx in FTL:
        h=H('nextafter_'+sx,'%s x, %s y'%(ty,ty),'%s r'%ty,'r=ccm::nextafter(x,y);')
        def g(i,o,rm): return [Goal('nextafter: the adjacent value toward y',FSAME(o['r'],spec.nextafter(i['x'],i['y'])))]
        add(ts,h,g,cfgs=('rt','gcc')+(('ct','ct+pt','pt') if sx!='l' else ('pt',)))
        h=H('nexttoward_'+sx,'%s x, long double y'%ty,'%s r, %s q'%(ty,ty),'r=ccm::nexttoward(x,y); q=ccm::nexttoward%s(x,y);'%sx.replace('d',''))
        def g(i,o,rm): return [Goal('nexttoward: the adjacent value toward y',FSAME(o['r'],spec.nextafter(i['x'],i['y']))),Goal('nexttoward%s'%sx,FSAME(o['q'],spec.nextafter(i['x'],i['y'])))]
        add(ts,h,g,cfgs=('rt','gcc','pt'))
        h=H('nextup_'+sx,'%s x'%ty,'%s u, %s d'%(ty,ty),'u=ccm::nextup(x); d=ccm::nextdown(x);')
        def g(i,o,rm):
            x=i['x']; nan=FNAN(x)
            return [Goal('nextup: least greater value',FSAME(o['u'],spec.up(x)),pre=NOT(nan)),Goal('nextdown: greatest smaller value',FSAME(o['d'],spec.down(x)),pre=NOT(nan)),
                    Goal('nextup and nextdown of NaN',AND(FNAN(o['u']),FNAN(o['d'])),pre=nan)]
        add(ts,h,g,cfgs=('rt','gcc')+(('ct','ct+pt','pt') if sx!='l' else ('pt',)))
    return main('F05',ts,'every pair of bit patterns of float, double and canonical x87 long double (long double: run-time paths)')
