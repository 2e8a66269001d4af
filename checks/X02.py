from check import *
def k(v,w): return FCVT(RNE,ITOF('sitofp',RNE,C(v,32),64),w) if w!=64 else ITOF('sitofp',RNE,C(v,32),64)
def in01(r): return AND(FCMP('fle',k(0,r.w),r),FCMP('fle',r,k(1,r.w)))
def run():
    ts=[]
    for ty,sx in FT:
        w=CT[ty][0]
        Z,O=k(0,w),k(1,w)
        h=H('clamp_'+sx,'%s v, %s u, %s lo, %s hi'%((ty,)*4),'%s r,%s s'%(ty,ty),'r=ccm::ext::clamp(v,lo,hi); s=ccm::ext::clamp(u,lo,hi);')
        def g(i,o,rm):
            v,u,lo,hi,r,s=i['v'],i['u'],i['lo'],i['hi'],o['r'],o['s']; nn=NOT(FNAN(v))
            return [Goal('clamp stays within the bounds',AND(FCMP('fle',lo,r),FCMP('fle',r,hi)),pre=nn),
                Goal('clamp is the identity inside the bounds',FCMP('feq',r,v),pre=AND(nn,FCMP('fle',lo,v),FCMP('fle',v,hi))),
                Goal('clamp returns the bound outside',FCMP('feq',r,ITE(FCMP('flt',v,lo),lo,hi)),pre=AND(nn,NOT(AND(FCMP('fle',lo,v),FCMP('fle',v,hi))))),
                Goal('clamp is monotone',FCMP('fle',r,s),pre=FCMP('fle',v,u)),
                Goal('clamp of a NaN stays a NaN or a bound',OR(FNAN(r),FCMP('feq',r,lo),FCMP('feq',r,hi)),pre=FNAN(v))]
        add(ts,h,g,cfgs=('ct','rt','gcc'),extra=EXT,pre=lambda n: FCMP('fle',n['lo'],n['hi']))
        h=H('saturate_'+sx,'%s v, %s u'%(ty,ty),'%s r,%s s'%(ty,ty),'r=ccm::ext::saturate(v); s=ccm::ext::saturate(u);')
        def g(i,o,rm,Z=Z,O=O):
            v,u,r,s=i['v'],i['u'],o['r'],o['s']; nn=NOT(FNAN(v))
            return [Goal('saturate stays within [0,1]',in01(r),pre=nn),
                Goal('saturate is the identity inside [0,1], a bound outside',FCMP('feq',r,ITE(FCMP('fle',v,Z),Z,ITE(FCMP('fle',O,v),O,v))),pre=nn),
                Goal('saturate is monotone',FCMP('fle',r,s),pre=FCMP('fle',v,u))]
        add(ts,h,g,cfgs=('ct','rt'),extra=EXT)
        h=H('step_'+sx,'%s e, %s v'%(ty,ty),'%s r'%ty,'r=ccm::ext::step(e,v);')
        def g(i,o,rm,Z=Z,O=O): return [Goal('step is 0 below the edge, else 1',EQ(o['r'],ITE(FCMP('flt',i['v'],i['e']),Z,O)))]
        add(ts,h,g,cfgs=('ct','rt'),extra=EXT)
        h=H('normalize_'+sx,'%s v, %s lo, %s hi'%(ty,ty,ty),'%s r, %s s'%(ty,ty),'r=ccm::ext::normalize(v,lo,hi); s=ccm::ext::safe::normalize(v,lo,hi);')
        fin=lambda n: AND(*[FFIN(t) for t in n.values()])
        def g(i,o,rm,w=w,Z=Z,O=O):
            v,lo,hi,r,s=i['v'],i['lo'],i['hi'],o['r'],o['s']
            num=FOP('fsub',rm,v,lo); den=FOP('fsub',rm,hi,lo); q=FOP('fdiv',rm,num,den)
            return [Goal('normalize stays within [0,1]',in01(r),pre=FCMP('flt',lo,hi),absops=('fdiv','fsub')),Goal('safe::normalize stays within [0,1]',in01(s),pre=FCMP('fle',lo,hi),absops=('fdiv','fsub')),
                Goal('normalize is the quotient clamped to [0,1]',FCMP('feq',r,ITE(FCMP('fle',q,Z),Z,ITE(FCMP('fle',O,q),O,q))),pre=AND(FCMP('flt',lo,hi),NOT(FNAN(q))),absops=('fdiv','fsub'))]
        add(ts,h,g,cfgs=('ct','rt'),extra=EXT,pre=fin)
        h=H('smoothstep_'+sx,'%s e0, %s e1, %s x'%(ty,ty,ty),'%s r'%ty,'r=ccm::ext::smoothstep(e0,e1,x);')
        def g(i,o,rm,Z=Z,O=O):
            x,e0,e1=i['x'],i['e0'],i['e1']; pre=FCMP('flt',e0,e1)
            q=FOP('fdiv',rm,FOP('fsub',rm,x,e0),FOP('fsub',rm,e1,e0))
            return ([Goal('smoothstep stays within [0,1]',in01(o['r']),pre=pre,absops=('fdiv',),timeout=400)] if x.w==32 else [])+[
               Goal('smoothstep is 0 below the lower edge',EQ(o['r'],Z),pre=AND(pre,FCMP('fle',q,Z)),absops=('fdiv','fsub') if 0 else ('fdiv',)),
               Goal('smoothstep is 1 above the upper edge',EQ(o['r'],O),pre=AND(pre,FCMP('fle',O,q)),absops=('fdiv',))]
        add(ts,h,g,cfgs=('ct','rt'),rms=(0,),extra=EXT,pre=fin)
    return main('X02',ts,'every pair of non-NaN arguments and ordered bounds; normalize and smoothstep: finite operands (smoothstep: to-nearest, interior range bound for float only)')
