from check import *
INCB='#include <ccmath/internal/types/big_int.hpp>\n#include <optional>\n'
def words(n,w,p): return ', '.join('%s %s%d'%(WT[w],p,k) for k in range(n//w))
WT={64:'unsigned long',32:'unsigned',16:'unsigned short',8:'unsigned char'}
def load(ty,n,w,p,v): return '%s %s; '%(ty,v)+''.join('%s[%d]=%s%d; '%(v,k,p,k) for k in range(n//w))
def store(e,n,w,p): return '{ auto q_=%s; '%e+''.join('%s%d=q_[%d]; '%(p,k,k) for k in range(n//w))+'} '
def cat(d,p,n,w):
    r=d[p+'0']
    for k in range(1,n//w): r=CONCAT(d['%s%d'%(p,k)],r)
    return r
def lim(t,k,w): return EXTRACT(t,w*k+w-1,w*k)
def mulspec(a,b,n,w,m=None,signed=False):
    """exact product modulo 2^m as the sum of the word products"""
    m=m or 2*n; r=C(0,m)
    for i in range(n//w):
        for j in range(n//w):
            if w*(i+j)>=m: continue
            p=MUL(ZEXT(lim(a,i,w),2*w),ZEXT(lim(b,j,w),2*w)); p=ZEXT(p,m) if m>2*w else EXTRACT(p,m-1,0) if m<2*w else p
            r=ADD(r,SHL(p,C(w*(i+j),m)))
    return r
def mulhalf(a,b,n,w,m):
    h=w//2; r=C(0,m)
    for i in range(n//h):
        for j in range(n//h):
            if h*(i+j)>=m: continue
            p=MUL(ZEXT(lim(a,i,h),w),ZEXT(lim(b,j,h),w)); p=ZEXT(p,m) if m>w else p
            r=ADD(r,SHL(p,C(h*(i+j),m)))
    return r
def clz(x):
    r=C(x.w,32)
    for k in range(x.w): r=ITE(EQ(EXTRACT(x,k,k),C(1,1)),C(x.w-1-k,32),r)
    return r
def ctz(x):
    r=C(x.w,32)
    for k in reversed(range(x.w)): r=ITE(EQ(EXTRACT(x,k,k),C(1,1)),C(k,32),r)
    return r
def B(c): return ITE(c,C(1,8),C(0,8))
def pop(x,w=64):
    r=C(0,32)
    for k in range(0,x.w,w): r=ADD(r,EXTRACT(POPCNT(EXTRACT(x,k+w-1,k)),31,0))
    return r
def popz(x,w):
    r=C(0,32)
    for k in range(0,x.w,w): r=ADD(r,EXTRACT(POPCNT(BNOT(EXTRACT(x,k+w-1,k))),31,0))
    return r
def run():
    ts=[]
    NO='#undef __SIZEOF_INT128__\n'
    for n,w,sg in((128,64,0),(192,64,0),(256,64,0),(96,32,0),(128,64,1),(192,64,1)):
        T='ccm::types::BigInt<%d,%s,%s>'%(n,'true' if sg else 'false',{64:'std::uint64_t',32:'std::uint32_t'}[w]); t='%s%d'%('si' if sg else 'u',n)
        L=load(T,n,w,'a','A')+load(T,n,w,'b','Bb'); ab=words(n,w,'a')+', '+words(n,w,'b')
        cf=('ct','rt','no128')
        def two(i,n=n,w=w): return cat(i,'a',n,w),cat(i,'b',n,w)
        h=H('addsub_'+t,ab,', '.join(words(n,w,p) for p in('s','d','v','x'))+', %s ov, %s bo'%(WT[w],WT[w]),L+store('A+Bb',n,w,'s')+store('A-Bb',n,w,'d')+'{ auto q=A; ov=q.add_overflow(Bb); '+store('q',n,w,'v')+' q=A; bo=q.sub_overflow(Bb); '+store('q',n,w,'x')+'}')
        def g(i,o,rm,n=n,w=w):
            a,b=cat(i,'a',n,w),cat(i,'b',n,w); aa,bb=ZEXT(a,n+1),ZEXT(b,n+1)
            return [Goal('a+b',EQ(cat(o,'s',n,w),ADD(a,b))),Goal('a-b',EQ(cat(o,'d',n,w),SUB(a,b))),Goal('add_overflow sum',EQ(cat(o,'v',n,w),ADD(a,b))),Goal('sub_overflow difference',EQ(cat(o,'x',n,w),SUB(a,b))),
                Goal('add_overflow carry',EQ(o['ov'],ZEXT(EXTRACT(ADD(aa,bb),n,n),w))),Goal('sub_overflow borrow',EQ(o['bo'],ITE(ULT(a,b),C(1,w),C(0,w))))]
        add(ts,h,g,cfgs=cf+('nb',),extra=INCB)
        h=H('asg_'+t,ab,', '.join(words(n,w,p) for p in('s','d','n','u','e','c'))+', '+words(n,w,'y')+', '+words(n,w,'z'),L+'{ auto q=A; q+=Bb; '+store('q',n,w,'s')+' q=A; q-=Bb; '+store('q',n,w,'d')+'}'+store('-A',n,w,'n')+store('~A',n,w,'c')+'{ auto q=A; ++q; '+store('q',n,w,'u')+'q=A; --q; '+store('q',n,w,'e')+'q=A; auto p=q++; '+store('p',n,w,'y')+' p=q--; '+store('q',n,w,'z')+'}')
        def g(i,o,rm,n=n,w=w):
            a,b=cat(i,'a',n,w),cat(i,'b',n,w); one=C(1,n)
            return [Goal('a+=b',EQ(cat(o,'s',n,w),ADD(a,b))),Goal('a-=b',EQ(cat(o,'d',n,w),SUB(a,b))),Goal('-a',EQ(cat(o,'n',n,w),SUB(C(0,n),a))),Goal('~a',EQ(cat(o,'c',n,w),BNOT(a))),Goal('++a',EQ(cat(o,'u',n,w),ADD(a,one))),Goal('--a',EQ(cat(o,'e',n,w),SUB(a,one))),
                    Goal('a++ yields the old value',EQ(cat(o,'y',n,w),a)),Goal('a++ then a--',EQ(cat(o,'z',n,w),a))]
        add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
        h=H('cmp_'+t,ab,'bool lt,bool le,bool gt,bool ge,bool eq,bool ne,bool z,bool ng,'+words(n,w,'d')+','+words(n,w,'o')+','+words(n,w,'x'),L+'lt=A<Bb; le=A<=Bb; gt=A>Bb; ge=A>=Bb; eq=A==Bb; ne=A!=Bb; z=A.is_zero(); ng=A.is_neg();'+store('A&Bb',n,w,'d')+store('A|Bb',n,w,'o')+store('A^Bb',n,w,'x'))
        def g(i,o,rm,n=n,w=w,sg=sg):
            a,b=cat(i,'a',n,w),cat(i,'b',n,w); lt=SLT(a,b) if sg else ULT(a,b); eq=EQ(a,b)
            return [Goal('<',EQ(o['lt'],B(lt))),Goal('<=',EQ(o['le'],B(OR(lt,eq)))),Goal('>',EQ(o['gt'],B(NOT(OR(lt,eq))))),Goal('>=',EQ(o['ge'],B(NOT(lt)))),Goal('==',EQ(o['eq'],B(eq))),Goal('!=',EQ(o['ne'],B(NOT(eq)))),
                Goal('is_zero',EQ(o['z'],B(EQ(a,C(0,n))))),Goal('is_neg',EQ(o['ng'],B(SLT(a,C(0,n))) if sg else C(0,8))),Goal('&',EQ(cat(o,'d',n,w),BAND(a,b))),Goal('|',EQ(cat(o,'o',n,w),BOR(a,b))),Goal('^',EQ(cat(o,'x',n,w),XOR(a,b)))]
        add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
        h=H('sh_'+t,words(n,w,'a')+', unsigned k',words(n,w,'l')+', '+words(n,w,'r'),load(T,n,w,'a','A')+store('(A<<(std::size_t)k)',n,w,'l')+store('(A>>(std::size_t)k)',n,w,'r'))
        def g(i,o,rm,n=n,w=w,sg=sg):
            a=cat(i,'a',n,w); k=ZEXT(i['k'],n)
            return [Goal('<<',EQ(cat(o,'l',n,w),SHL(a,k))),Goal('>>',EQ(cat(o,'r',n,w),(ASHR if sg else LSHR)(a,k)))]
        add(ts,h,g,cfgs=cf,extra=INCB,pre=lambda ins,n=n: ULT(ins['k'],C(n,32)),samples=lambda c,n=n,w=w:[{**{'a%d'%j:r.getrandbits(w) for j in range(n//w)},'k':r.randrange(n)} for r in[random.Random(SEED)] for _ in range(c)])
        h=H('cnt_'+t,words(n,w,'a'),'int lz,int tz,int lo,int to,int pc,bool sb,int bw',load(T,n,w,'a','A')+'using namespace ccm::support; lz=countl_zero(A); tz=countr_zero(A); lo=countl_one(A); to=countr_one(A); pc=popcount(A); sb=has_single_bit(A); bw=%s;'%('bit_width(A)' if not sg else '0'))
        def g(i,o,rm,n=n,w=w,sg=sg):
            a=cat(i,'a',n,w)
            return [Goal('countl_zero',EQ(o['lz'],clz(a))),Goal('countr_zero',EQ(o['tz'],ctz(a))),Goal('countl_one',EQ(o['lo'],clz(BNOT(a)))),Goal('countr_one',EQ(o['to'],ctz(BNOT(a)))),Goal('popcount',EQ(o['pc'],pop(a,w)),lia=True),
                Goal('has_single_bit',EQ(o['sb'],B(AND(NE(a,C(0,n)),EQ(BAND(a,SUB(a,C(1,n))),C(0,n))))))]+([Goal('bit_width',EQ(o['bw'],SUB(C(n,32),clz(a))))] if not sg else [])
        add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
        if not sg:
            h=H('rot_'+t,words(n,w,'a')+', int k',words(n,w,'l')+', '+words(n,w,'r'),load(T,n,w,'a','A')+store('ccm::support::rotl(A,k)',n,w,'l')+store('ccm::support::rotr(A,k)',n,w,'r'))
            def g(i,o,rm,n=n,w=w):
                a=cat(i,'a',n,w); k=i['k']; km=SREM(k,C(n,32)); km=ITE(SLT(km,C(0,32)),ADD(km,C(n,32)),km); k=ZEXT(km,2*n); xx=CONCAT(a,a)
                return [x for j in range(-((n+63)//64),(n+63)//64) for x in(Goal('rotl',EQ(cat(o,'l',n,w),EXTRACT(SHL(xx,k),2*n-1,n)),sub={'k':CONCAT(C(j,26),V('kl',6))}),Goal('rotr',EQ(cat(o,'r',n,w),EXTRACT(LSHR(xx,k),n-1,0)),sub={'k':CONCAT(C(j,26),V('kl',6))}))]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB,pre=lambda ins,n=n: AND(SLT(C(-n,32),ins['k']),SLT(ins['k'],C(n,32))),samples=lambda c,n=n,w=w:[{**{'a%d'%j:r.getrandbits(w) for j in range(n//w)},'k':r.randrange(-n+1,n)&mask(32)} for r in[random.Random(SEED)] for _ in range(c)])
            h=H('fst_'+t,words(n,w,'a'),'int lz,int lo,int tz,int to,int cz',load(T,n,w,'a','A')+'using namespace ccm::support; lz=first_leading_zero(A); lo=first_leading_one(A); tz=first_trailing_zero(A); to=first_trailing_one(A); cz=count_zeros(A);')
            def g(i,o,rm,n=n,w=w):
                a=cat(i,'a',n,w); na=BNOT(a); one=C(1,32); z=C(0,32); f=lambda x,q: ITE(EQ(x,C(0,n)),z,ADD(q(x),one))
                return [Goal('first_leading_zero',EQ(o['lz'],f(na,clz))),Goal('first_leading_one',EQ(o['lo'],f(a,clz))),Goal('first_trailing_zero',EQ(o['tz'],f(na,ctz))),Goal('first_trailing_one',EQ(o['to'],f(a,ctz))),Goal('count_zeros',EQ(o['cz'],popz(a,w)),lia=True)]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
        # multiplication
        if n<=192:
            h=H('mul_'+t,ab,words(n,w,'p'),L+store('A*Bb',n,w,'p'))
            def g(i,o,rm,n=n,w=w):
                a,b=cat(i,'a',n,w),cat(i,'b',n,w)
                return [Goal('a*b modulo 2^%d'%n,EQ(cat(o,'p',n,w),mulspec(a,b,n,w,n)),lia=True)]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
        if not sg and n<=192:
            m=2*n
            h=H('fmul_'+t,ab,words(m,w,'p'),L+store('A.ful_mul(Bb)',m,w,'p'))
            def g(i,o,rm,n=n,w=w,m=m):
                a,b=cat(i,'a',n,w),cat(i,'b',n,w)
                return [Goal('full product',EQ(cat(o,'p',m,w),mulspec(a,b,n,w,m)),lia=True)]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
            h=H('smul_'+t,words(n,w,'a')+', %s x'%WT[w],words(n,w,'p')+', %s c'%WT[w],load(T,n,w,'a','A')+'c=A.mul(x); '+store('A',n,w,'p'))
            def g(i,o,rm,n=n,w=w):
                a=cat(i,'a',n,w); x=i['x']; r=C(0,n+w)
                for k in range(n//w):
                    p=MUL(ZEXT(lim(a,k,w),2*w),ZEXT(x,2*w)); r=ADD(r,SHL(ZEXT(p,n+w),C(w*k,n+w)))
                return [Goal('a*=x word %d'%k,EQ(o['p%d'%k],lim(r,k,w)),lia=True) for k in range(n//w)]+[Goal('a*=x carry out',EQ(o['c'],lim(r,n//w,w)),lia=True)]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
            h=H('qmh_'+t,ab,words(n,w,'p'),L+store('A.quick_mul_hi(Bb)',n,w,'p'))
            def g(i,o,rm,n=n,w=w):
                a,b=cat(i,'a',n,w),cat(i,'b',n,w); ex=EXTRACT(mulspec(a,b,n,w,2*n),2*n-1,n); p=cat(o,'p',n,w); d=SUB(ex,p)
                return [Goal('quick_mul_hi is the high half up to the documented error',ULE(d,C(n//w-1,n)),lia=True)]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
    # 64 x 64 -> 128 without a 128-bit type: half-word products
    for w in(16,32,64):
        h=H('mul2_%d'%w,'%s a, %s b'%(WT[w],WT[w]),'%s l, %s h'%(WT[w],WT[w]),'auto q=ccm::types::multiword::mul2<%s>(a,b); l=q[0]; h=q[1];'%WT[w])
        def g(i,o,rm,w=w):
            a,b=i['a'],i['b']
            if w==64: r=mulhalf(a,b,64,64,128); return [Goal('mul2 low word',EQ(o['l'],EXTRACT(r,63,0)),lia=True),Goal('mul2 high word',EQ(o['h'],EXTRACT(r,127,64)),lia=True)]
            r=MUL(ZEXT(a,2*w),ZEXT(b,2*w)); return [Goal('mul2',EQ(CONCAT(o['h'],o['l']),r))]
        add(ts,h,g,cfgs=('no128','no128+ct') if w==64 else ('rt','ct'),extra=INCB)
        if w==64:
            def g(i,o,rm): 
                r=MUL(ZEXT(i['a'],128),ZEXT(i['b'],128)); return [Goal('mul2',EQ(CONCAT(o['h'],o['l']),r),lia=True)]
            add(ts,h,g,cfgs=('rt','ct'),extra=INCB)
        h=H('awc_%d'%w,'%s a, %s b, bool c'%(WT[w],WT[w]),'%s s, %s co, %s d, %s bo'%((WT[w],)*4),'s=ccm::support::add_with_carry<%s>(a,b,(%s)c,co); d=ccm::support::sub_with_borrow<%s>(a,b,(%s)c,bo);'%((WT[w],)*4))
        def g(i,o,rm,w=w):
            a,b,c=(ZEXT(i[k],w+2) for k in'abc'); s=ADD(ADD(a,b),c); d=SUB(SUB(a,b),c)
            return [Goal('add_with_carry sum',EQ(o['s'],EXTRACT(s,w-1,0))),Goal('add_with_carry carry',EQ(o['co'],ZEXT(EXTRACT(s,w,w),w))),Goal('sub_with_borrow difference',EQ(o['d'],EXTRACT(d,w-1,0))),Goal('sub_with_borrow borrow',EQ(o['bo'],ZEXT(EXTRACT(d,w,w),w)))]
        add(ts,h,g,cfgs=('rt','ct','nb','nb+ct'),extra=INCB)
    # conversions between widths, word sizes and signedness
    def bi(n,s,w): return 'ccm::types::BigInt<%d,%s,std::uint%d_t>'%(n,'true' if s else 'false',w)
    for(n1,s1,w1),(n2,s2,w2) in(((128,0,64),(256,0,64)),((128,1,64),(256,1,64)),((256,0,64),(128,0,64)),((192,1,64),(128,1,64)),((128,1,64),(192,0,64)),((96,0,32),(128,0,64)),((96,1,32),(128,1,64)),((128,0,64),(96,0,32)),((128,1,64),(96,1,32)),((64,1,32),(192,1,64)),((192,0,64),(96,0,32)),((96,0,32),(64,0,64))):
        h=H('cv_%d%d%d_%d%d%d'%(n1,s1,w1,n2,s2,w2),words(n1,w1,'a'),words(n2,w2,'r'),load(bi(n1,s1,w1),n1,w1,'a','A')+store('(%s(A))'%bi(n2,s2,w2),n2,w2,'r'))
        def g(i,o,rm,n1=n1,w1=w1,s1=s1,n2=n2,w2=w2):
            a=cat(i,'a',n1,w1); v=(SEXT(a,n2) if s1 else ZEXT(a,n2)) if n2>n1 else EXTRACT(a,n2-1,0)
            return [Goal('conversion keeps the value modulo 2^%d'%n2,EQ(cat(o,'r',n2,w2),v))]
        add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
    for ty in('int','unsigned','long','unsigned long','short','unsigned char'):
        b=CT[ty][0]; sy='unsigned' not in ty
        for n,w,s in((128,64,0),(192,64,1),(96,32,0),(96,32,1)):
            T=bi(n,s,w); nm='%s_%s%d'%(ty.replace(' ','_'),'s' if s else 'u',n)
            h=H('from_'+nm,'%s v'%ty,words(n,w,'r'),store('%s(v)'%T,n,w,'r'))
            def g(i,o,rm,n=n,w=w,sy=sy,s=s):
                v=i['v']; return [Goal('construction from an integer',EQ(cat(o,'r',n,w),SEXT(v,n) if sy else ZEXT(v,n)),pre=TRUE if s or not sy else SLE(C(0,v.w),v))]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
            h=H('to_'+nm,words(n,w,'a'),'%s r, bool b'%ty,load(T,n,w,'a','A')+'r=static_cast<%s>(A); b=static_cast<bool>(A);'%ty)
            def g(i,o,rm,n=n,w=w,b=b):
                a=cat(i,'a',n,w); return [Goal('conversion to an integer keeps the low bits',EQ(o['r'],EXTRACT(a,b-1,0))),Goal('conversion to bool',EQ(o['b'],B(NE(a,C(0,n)))))]
            add(ts,h,g,cfgs=('ct','rt'),extra=INCB)
    # division: the bit lengths ka+1 and kb+1 of dividend and divisor are fixed per goal, the bits below the leading one are free
    def lead(v,k,n,w): return 'ccm::types::BigInt<%d,false,std::uint%d_t> %s; '%(n,w,v)+''.join(('%s[%d]=%s%d; '%(v,j,v.lower(),j)) if w*(j+1)<=k else ('%s[%d]=(%s)((%s%d&%du)|%du); '%(v,j,WT[w],v.lower(),j,(1<<(k-w*j))-1,1<<(k-w*j)) if w<64 else '%s[%d]=(%s%d&%dul)|%dul; '%(v,j,v.lower(),j,(1<<(k-w*j))-1,1<<(k-w*j))) if w*j<=k else '%s[%d]=0; '%(v,j) for j in range(n//w))
    def top(t,k): return EXTRACT(BOR(BAND(t,C((1<<k)-1,t.w)),C(1<<k,t.w)),t.w-1,0)
    def divgoals(a,b,q,r,n,d):
        """a = q*b + r, r < b, with the product as the sum of b<<i over the bits of q"""
        s=C(0,n); 
        for k in range(d+1): s=ADD(s,ITE(EQ(EXTRACT(q,k,k),C(1,1)),SHL(b,C(k,n)),C(0,n)))
        hi=[EQ(EXTRACT(q,n-1,d+1),C(0,n-d-1))] if d+1<n else []
        return [Goal('quotient below 2^%d'%(d+1),AND(*hi)),Goal('a = q*b + r',EQ(ADD(s,r),a),lia=True),Goal('remainder below the divisor',ULT(r,b),lia=True)]
    pairs=[(16,16,ka,kb) for ka in range(16) for kb in range(ka+1) if (ka-kb<7 if TIER=='thorough' else ka-kb<5 and (ka in(15,10,4,2) or kb in(0,1,7)))]+[(32,16,ka,kb) for ka in(31,16,20) for kb in(31,28,17,16,15,14,11) if 0<=ka-kb<4]+[(128,64,127,126),(128,64,64,63),(128,64,66,64)]+([(128,64,70,65),(128,64,127,123),(128,64,65,62),(192,64,130,127)] if TIER=='thorough' else [])
    pairs+=[(16,16,5,9),(128,64,63,64)]
    for n,w,ka,kb in pairs:
        L=lead('A',ka,n,w)+lead('B',kb,n,w)
        h=H('div_u%d_%d_%d'%(n,ka,kb),words(n,w,'a')+', '+words(n,w,'b'),words(n,w,'q')+', '+words(n,w,'r'),L+store('A/B',n,w,'q')+store('A%B',n,w,'r'))
        def g(i,o,rm,n=n,w=w,ka=ka,kb=kb):
            a,b=top(cat(i,'a',n,w),ka),top(cat(i,'b',n,w),kb)
            return divgoals(a,b,cat(o,'q',n,w),cat(o,'r',n,w),n,max(ka-kb,0))
        add(ts,h,g,cfgs=('rt',),extra=INCB,nsamp=12)
    for sg,n,w in((1,16,16),):
        # signed division: sign handling around the unsigned one; operands of few bits
        T='ccm::types::BigInt<16,true,std::uint16_t>'
        h=H('div_s16','signed char a, signed char b','short q, short r','%s A(a), B(b); q=(short)(A/B); r=(short)(A%%B);'%T)
        def g(i,o,rm):
            a,b=SEXT(i['a'],16),SEXT(i['b'],16); return [Goal('quotient',EQ(o['q'],SDIV(a,b))),Goal('remainder',EQ(o['r'],SREM(a,b)))]
        add(ts,h,g,cfgs=('rt',),extra=INCB,pre=lambda i:AND(NE(i['b'],C(0,8)),SLE(C(-8 if TIER=='quick' else -32,8),i['a']),SLE(i['a'],C(8 if TIER=='quick' else 31,8)),SLE(C(-3,8),i['b']),SLE(i['b'],C(3,8))),prune=True)
    for x in(1,3,10,128,255) if TIER=='quick' else (1,2,3,7,10,25,100,127,128,200,255):
        es=(0,5,8,12,16,17,24,29,32)
        h=H('dhp_%d'%x,words(32,16,'a'),', '.join(words(32,16,'q%d_'%e)+', '+words(32,16,'r%d_'%e) for e in es),''.join('{ '+load('ccm::types::BigInt<32,false,std::uint16_t>',32,16,'a','A')+'auto rr=A.div_uint_half_times_pow_2(%d,%d); '%(x,e)+store('A',32,16,'q%d_'%e)+store('(*rr)',32,16,'r%d_'%e)+'} ' for e in es))
        def g(i,o,rm,x=x):
            out=[]; a=ZEXT(cat(i,'a',32,16),80)
            for e in es:
                q=ZEXT(cat(o,'q%d_'%e,32,16),80); r=ZEXT(cat(o,'r%d_'%e,32,16),80); d=x<<e
                out+=[Goal('a = q*%d*2^%d + r'%(x,e),EQ(a,ADD(MUL(q,C(d,80)),r)),lia=True),Goal('remainder below %d*2^%d'%(x,e),ULT(r,C(d,80)),lia=True)]
            return out
        add(ts,h,g,cfgs=('rt',),extra=INCB)
    return main('I01',ts,'unsigned 96, 128, 192 and 256 bits and signed 128 and 192 bits: every operand value, shift amounts below the width; multiplication up to 192x192 bits; division at total widths of 16 to 32 bits (the loops do not depend on the width); conversions between the listed widths',
        assumptions=['products of the encoding and of the specification are identified when their factors are identical words; the 64-bit product built from half words is compared with the sum of its four half-word products'])
