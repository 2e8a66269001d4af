from check import *
from facts import *
def num(v,w): return FCVT(RNE,ITOF('sitofp',RNE,C(v,32),64),w)
def run():
    ts=[]
    for ty,sx in FT:
        w=CT[ty][0]; Z=C(0,w)
        fin=lambda n: AND(*[FFIN(t) for t in n.values()])
        le=lambda p,q: FCMP('fle',p,q); lt=lambda p,q: FCMP('flt',p,q); eq=lambda p,q: FCMP('feq',p,q)
        h=H('move_'+sx,'%s c, %s g, %s m'%(ty,ty,ty),'%s r'%ty,'r=ccm::ext::move_towards(c,g,m);')
        def g(i,o,rm,Z=Z):
            c,t,m,r=i['c'],i['g'],i['m'],o['r']; k=dict(absops=('fadd','fsub'),facts=Stepping); d=FABS(FOP('fsub',rm,t,c))
            return [Goal('move_towards never passes a target above',AND(le(c,r),le(r,t)),pre=lt(c,t),**k),
                Goal('move_towards never passes a target below',AND(le(t,r),le(r,c)),pre=lt(t,c),**k),
                Goal('move_towards reaches a target within the step',eq(r,t),pre=le(d,m)),
                Goal('move_towards stays at the target',eq(r,t),pre=eq(c,t))]
        add(ts,h,g,cfgs=('ct','rt'),rms=(0,),extra=EXT,pre=lambda n,fin=fin,Z=Z: AND(fin(n),FCMP('fle',Z,n['m'])))
        h=H('fract_'+sx,'%s x'%ty,'%s r'%ty,'r=ccm::ext::fract(x);')
        def g(i,o,rm,Z=Z,w=w):
            r=o['r']; x=i['x']; O=num(1,w)
            return [Goal('fract is in [0,1]',AND(le(Z,r),le(r,O))),Goal('fract of an integral value is 0',eq(r,Z),pre=eq(x,FOP('rti',C(3,2),x)))]
        add(ts,h,g,cfgs=('ct','rt','gcc'),extra=EXT,pre=fin)
        h=H('delta_'+sx,'%s a, %s b'%(ty,ty),'%s r, %s s'%(ty,ty),'r=ccm::ext::delta_angle(a,b); s=ccm::ext::safe::delta_angle(a,b);')
        def g(i,o,rm,w=w):
            H_=num(180,w)
            return [Goal(n+' is within [-180,180]',AND(le(FNEG(H_),o[k]),le(o[k],H_))) for n,k in(('delta_angle','r'),('safe::delta_angle','s'))]
        add(ts,h,g,cfgs=('ct','rt'),rms=(0,),extra=EXT,pre=lambda n,w=w: AND(*[FCMP('fle',FABS(t),num(360,w)) for t in n.values()]))
        h=H('repeat_'+sx,'%s v, %s l'%(ty,ty),'%s r'%ty,'r=ccm::ext::repeat(v,l);')
        def g(i,o,rm,w=w,Z=Z):
            v,l,r=i['v'],i['l'],o['r']
            return [Goal('repeat is the identity inside [0,length)',eq(r,v),pre=AND(le(Z,v),lt(v,l),lt(FOP('fdiv',rm,v,l),num(1,w)))),
                    Goal('repeat of the length is 0',eq(r,Z),pre=eq(v,l)),]
        add(ts,h,g,cfgs=('ct','rt'),rms=(0,),extra=EXT,pre=lambda n,fin=fin: AND(fin(n),FCMP('flt',C(0,n['l'].w),n['l'])))
        h=H('pp_'+sx,'%s a, %s b'%(ty,ty),'%s r'%ty,'r=ccm::ext::ping_pong(a,b);')
        def g(i,o,rm,w=w,Z=Z):
            a,b,r=i['a'],i['b'],o['r']
            return [Goal('ping_pong of range 0 is 0',eq(r,Z),pre=eq(b,Z))]
        add(ts,h,g,cfgs=('ct','rt'),rms=(0,),extra=EXT,pre=fin)
    return main('X04',ts,'all finite operands; delta_angle: angles within one turn; round to nearest (fract: every mode)',custom=lambda known,budget: lemma_queries(('fadd','fsub'),extra=step_lemma(),timeout=300))
