from check import *
def run():
    ts=[]
    for ty,sx in FT:
        w=CT[ty][0]; Z=C(0,w)
        def two(nm,ins,call,length,zero):
            """safe variant equals the unchecked one, or the documented constant when the length is zero"""
            h=H(nm+'_'+sx,ins.replace('T',ty),'%s s,%s r'%(ty,ty),'s=ccm::ext::safe::%s; r=ccm::ext::%s;'%(call,call))
            def g(i,o,rm,nm=nm,length=length,zero=zero):
                l=length(i,rm); z=FCMP('feq',l,C(0,l.w))
                return [Goal(nm+': safe and unchecked agree',FSAME(o['s'],o['r']),pre=NOT(z)),Goal(nm+': zero length gives the documented constant',FSAME(o['s'],zero(i)),pre=z)]
            add(ts,h,g,cfgs=('ct','rt'),extra=EXT)
        sub=lambda a,b: lambda i,rm: FOP('fsub',rm,i[b],i[a])
        two('unlerp','T a, T b, T v','unlerp(a,b,v)',sub('a','b'),lambda i: C(0,next(iter(i.values())).w))
        two('inverse_lerp','T a, T b, T v','inverse_lerp(a,b,v)',sub('a','b'),lambda i: C(0,next(iter(i.values())).w))
        two('normalize','T v, T a, T b','normalize(v,a,b)',sub('a','b'),lambda i: C(0,next(iter(i.values())).w))
        two('remap','T a, T b, T c, T d, T v','remap(a,b,c,d,v)',sub('a','b'),lambda i: i['c'])
        two('repeat','T v, T l','repeat(v,l)',lambda i,rm: i['l'],lambda i: C(0,next(iter(i.values())).w))
        h=H('delta_angle_'+sx,'%s a, %s b'%(ty,ty),'%s s,%s r'%(ty,ty),'s=ccm::ext::safe::delta_angle(a,b); r=ccm::ext::delta_angle(a,b);')
        add(ts,h,lambda i,o,rm: [Goal('delta_angle: safe and unchecked agree',FSAME(o['s'],o['r']))],cfgs=('ct','rt'),extra=EXT)
        # the unchecked formulas themselves
        h=H('formula_'+sx,'%s a, %s b, %s c, %s d, %s v'%((ty,)*5),'%s u,%s m,%s p'%(ty,ty,ty),'u=ccm::ext::unlerp(a,b,v); m=ccm::ext::remap(a,b,c,d,v); p=ccm::ext::inverse_lerp(a,b,v);')
        def g(i,o,rm):
            a,b,c,d,v=[i[k] for k in 'abcdv']; F=lambda op,x,y: FOP(op,rm,x,y)
            q=F('fdiv',F('fsub',v,a),F('fsub',b,a))
            return [Goal('unlerp and inverse_lerp are the quotient (v-a)/(b-a)',AND(FSAME(o['u'],q),FSAME(o['p'],q))),
                Goal('remap maps the source start to the destination start',FCMP('feq',o['m'],c),pre=AND(FCMP('feq',v,a),FCMP('flt',a,b),*[FFIN(t) for t in (a,b,c,d,F('fsub',d,c),F('fsub',b,a))]))]
        add(ts,h,g,cfgs=('ct','rt'),extra=EXT)
    for ty,sx,w,sg in (('int','i32',32,1),('unsigned','u32',32,0),('long','i64',64,1),('unsigned long','u64',64,0),('short','i16',16,1)):
        h=H('ceil_div_'+sx,'%s a, %s b'%(ty,ty),'%s s,%s r'%(ty,ty),'s=ccm::ext::safe::ceil_div(a,b); r=b?ccm::ext::ceil_div(a,b):0;')
        def g(i,o,rm,w=w):
            z=EQ(i['b'],C(0,w))
            return [Goal('ceil_div: safe and unchecked agree',EQ(o['s'],o['r'])),Goal('ceil_div: a zero divisor gives 0',EQ(o['s'],C(0,w)),pre=z)]
        add(ts,h,g,cfgs=('ct',),extra=EXT,pre=(lambda n,w=w: NOT(AND(EQ(n['b'],C(-1,w)),EQ(n['a'],C(1<<(w-1),w))))) if sg else None)
        h=H('pow2_'+sx,'%s a'%ty,'bool s,bool r','s=ccm::ext::safe::is_power_of_two(a); r=ccm::ext::is_power_of_two(a);')
        def g(i,o,rm,w=w,sg=sg): return [Goal('is_power_of_two: safe and unchecked agree',EQ(o['s'],o['r']),pre=SLE(C(0,w),i['a']) if sg else TRUE),]+([Goal('safe::is_power_of_two is false for negative values',EQ(o['s'],C(0,8)),pre=SLT(i['a'],C(0,w)))] if sg else [])
        add(ts,h,g,cfgs=('ct',),extra=EXT,pre=(lambda n,w=w: NE(n['a'],C(1<<(w-1),w))) if sg else None)
    return main('X03',ts,'every operand tuple of float and double, every rounding mode at run time; 16- to 64-bit integers')
