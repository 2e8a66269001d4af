from check import *
U=(('unsigned char','u8',8),('unsigned short','u16',16),('unsigned','u32',32),('unsigned long','u64',64),('unsigned long long','ull',64))
def ladder(x,f,last):
    r=last
    for k in f: r=ITE(k[0],k[1],r)
    return r
def clz(x,w=32):
    r=C(x.w,w)
    for k in range(x.w): r=ITE(EQ(EXTRACT(x,k,k),C(1,1)),C(x.w-1-k,w),r)
    return r
def ctz(x,w=32):
    r=C(x.w,w)
    for k in reversed(range(x.w)): r=ITE(EQ(EXTRACT(x,k,k),C(1,1)),C(k,w),r)
    return r
def pop(x,w=32):
    r=C(0,w)
    for k in range(x.w): r=ADD(r,ZEXT(EXTRACT(x,k,k),w))
    return r
def run():
    ts=[]
    S='namespace q=ccm::support;'
    for ty,sx,w in U:
        B=lambda c: ITE(c,C(1,8),C(0,8))
        h=H('bits_'+sx,'%s x'%ty,'int lz,int tz,int lo,int to,int bw,int pc,bool sb,int cz',S+'lz=q::countl_zero(x);tz=q::countr_zero(x);lo=q::countl_one(x);to=q::countr_one(x);bw=q::bit_width(x);pc=q::popcount(x);%s;cz=x?q::ctz(x):%d;'%('sb=x&&!(x&(x-1))' if w==8 else 'sb=q::has_single_bit(x)',w))
        def g(i,o,rm,w=w):
            x=i['x']
            return [Goal('countl_zero',EQ(o['lz'],clz(x))),Goal('countr_zero',EQ(o['tz'],ctz(x))),Goal('countl_one',EQ(o['lo'],clz(BNOT(x)))),Goal('countr_one',EQ(o['to'],ctz(BNOT(x)))),
                Goal('bit_width',EQ(o['bw'],SUB(C(w,32),clz(x)))),Goal('popcount',EQ(o['pc'],pop(x))),Goal('has_single_bit',EQ(o['sb'],B(EQ(pop(x),C(1,32))))),Goal('ctz of a non-zero value',EQ(o['cz'],ctz(x)))]
        add(ts,h,g,cfgs=('ct','rt','nb','nb+ct'))
        h=H('rot_'+sx,'%s x, int n'%ty,'%s r,%s l'%(ty,ty),S+'r=q::rotr(x,n); l=q::rotl(x,n);')
        def g(i,o,rm,w=w):
            x=i['x']; k=BAND(i['n'],C(w-1,32)); k=EXTRACT(ZEXT(k,64),w-1,0) if w<64 else ZEXT(k,64)
            xx=CONCAT(x,x); kk=ZEXT(k,2*w)
            return [Goal('rotr',EQ(o['r'],EXTRACT(LSHR(xx,kk),w-1,0))),Goal('rotl',EQ(o['l'],EXTRACT(SHL(xx,kk),2*w-1,w)))]
        add(ts,h,g,cfgs=('ct','rt'),pre=lambda ins: NE(ins['n'],C(1<<31,32)))
        h=H('ceil_'+sx,'%s x'%ty,'%s c'%ty,S+'c=q::bit_ceil(x);')
        def g(i,o,rm,w=w):
            x=i['x']; c=o['c']; one=C(1,w)
            return [Goal('bit_ceil is a power of two',EQ(pop(c),C(1,32))),Goal('bit_ceil is not below x',ULE(x,c)),Goal('bit_ceil is minimal',OR(EQ(c,one),ULT(LSHR(c,one),x)))]
        add(ts,h,g,cfgs=('ct','rt','nb'),pre=lambda ins,w=w: ULE(ins['x'],C(1<<(w-1),w)))
    return main('I03',ts,'every operand of 8, 16, 32 and 64 bits; every rotation count except INT_MIN; bit_ceil for representable results')
