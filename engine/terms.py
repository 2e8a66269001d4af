"""Hash-consed terms: bit-vectors (w>0), Booleans (w==0); floating point values are bit-vectors of the
interchange format, FP operations are ordinary nodes that the SMT printer maps to the FloatingPoint theory."""
import softfloat as sf
class T:
    __slots__=('op','a','p','w','id','_r')
    def __repr__(s): return show(s)
_tab={}; _cnt=0
def mk(op,a,w,p=None):
    global _cnt
    k=(op,tuple(x.id for x in a),w,p)
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.a=tuple(a); t.w=w; t.p=p; t._r=None
        t.id=_cnt; _cnt+=1; _tab[k]=t
    return t
def show(t,d=4):
    if t.op=='c': return ('#%x:%d'%(t.p,t.w)) if t.w else str(bool(t.p))
    if t.op=='v': return t.p
    if d==0: return '..'
    return '(%s%s %s)'%(t.op,'' if t.p is None else ':'+str(t.p)[:24],' '.join(show(x,d-1) for x in t.a))
def C(v,w): return mk('c',(),w,v&((1<<w)-1))
TRUE=mk('c',(),0,1); FALSE=mk('c',(),0,0)
def B(b): return TRUE if b else FALSE
def V(name,w): return mk('v',(),w,name)
_fresh=0
def fresh(w,pre='u'):
    global _fresh; _fresh+=1
    return V('%s!%d'%(pre,_fresh),w)
def isc(t): return t.op=='c'
def sgn(v,w): return v-(1<<w) if v>>(w-1) else v
def mask(w): return (1<<w)-1
# ---------- booleans
def NOT(a):
    if a.op=='c': return B(not a.p)
    if a.op=='not': return a.a[0]
    return mk('not',(a,),0)
def conj(t):
    """flatten an and-chain into a list"""
    out=[]; st=[t]
    while st:
        x=st.pop()
        if x.op=='and': st.extend(reversed(x.a))
        else: out.append(x)
    return out
def AND(*xs):
    r=TRUE
    for x in xs: r=_and(r,x)
    return r
def _and(a,b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE or a is b: return a
    nb=NOT(b)
    n=0; x=a
    # walk the left spine looking for b or not b (bounded)
    while n<64:
        if x is b: return a
        if x is nb: return FALSE
        if x.op=='and':
            if x.a[1] is b: return a
            if x.a[1] is nb: return FALSE
            x=x.a[0]; n+=1
        else: break
    return mk('and',(a,b),0)
def OR(*xs):
    r=FALSE
    for x in xs: r=_or(r,x)
    return r
def _or(a,b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE or a is b: return a
    if a is NOT(b): return TRUE
    # or(and(g,c),and(g,!c)) = g, for and-chains that share a prefix set
    if a.op=='and' or b.op=='and':
        ca,cb=conj(a),conj(b)
        if len(ca)<200 and len(cb)<200:
            sa,sb=set(x.id for x in ca),set(x.id for x in cb)
            da=[x for x in ca if x.id not in sb]; db=[x for x in cb if x.id not in sa]
            if not da: return a
            if not db: return b
            if len(da)==1 and len(db)==1 and da[0] is NOT(db[0]):
                return AND(*[x for x in ca if x.id in sb])
            common=[x for x in ca if x.id in sb]
            if common:
                # or(and(g,c..),and(g,d..)) -> and(g, or(c..,d..))
                ra,rb=AND(*da),AND(*db)
                # absorb: (c) or (!c and d) = c or d
                if len(da)==1:
                    nd=NOT(da[0]); rb=AND(*[x for x in db if x is not nd])
                elif len(db)==1:
                    nd=NOT(db[0]); ra=AND(*[x for x in da if x is not nd])
                return AND(*(common+[_or2(ra,rb)]))
            if len(da)==1:
                nd=NOT(da[0]); b=AND(*[x for x in db if x is not nd])
            elif len(db)==1:
                nd=NOT(db[0]); a=AND(*[x for x in da if x is not nd])
    return _or2(a,b)
def _or2(a,b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE or a is b: return a
    if a is NOT(b): return TRUE
    if a.id>b.id: a,b=b,a
    return mk('or',(a,b),0)
def IMP(a,b): return OR(NOT(a),b)
def XORB(a,b):
    if a.op=='c': return NOT(b) if a.p else b
    if b.op=='c': return NOT(a) if b.p else a
    return NOT(EQ(a,b))
# ---------- equality, ite
def EQ(a,b):
    assert a.w==b.w,(a,b)
    if a is b: return TRUE
    if a.op=='c' and b.op=='c': return B(a.p==b.p)
    if a.w==0:
        if a.op=='c': return b if a.p else NOT(b)
        if b.op=='c': return a if b.p else NOT(a)
        if a is NOT(b): return FALSE
    else:
        if a.op=='c': a,b=b,a
        if b.op=='c':
            lo,hi=urange(a)
            if b.p<lo or b.p>hi: return FALSE
            if a.op=='ite':
                x,y=a.a[1],a.a[2]
                if x.op=='c' and y.op=='c':
                    if x.p==b.p: return a.a[0] if y.p!=b.p else TRUE
                    return NOT(a.a[0]) if y.p==b.p else FALSE
                if x.op=='c' and x.p!=b.p: return AND(NOT(a.a[0]),EQ(y,b))
                if y.op=='c' and y.p!=b.p: return AND(a.a[0],EQ(x,b))
            if a.op=='zext': return EQ(a.a[0],C(b.p,a.a[0].w)) if b.p<=mask(a.a[0].w) else FALSE
            if a.op=='sext':
                s=sgn(b.p,b.w); iw=a.a[0].w
                if -(1<<(iw-1))<=s<(1<<(iw-1)): return EQ(a.a[0],C(s,iw))
                return FALSE
            if a.op=='concat':
                lw=a.a[1].w
                return AND(EQ(a.a[0],C(b.p>>lw,a.a[0].w)),EQ(a.a[1],C(b.p,lw)))
            if a.op=='add' and a.a[1].op=='c': return EQ(a.a[0],C(b.p-a.a[1].p,a.w))
            if a.op=='xor' and a.a[1].op=='c': return EQ(a.a[0],C(b.p^a.a[1].p,a.w))
    if a.id>b.id: a,b=b,a
    return mk('eq',(a,b),0)
def NE(a,b): return NOT(EQ(a,b))
def ITE(c,a,b):
    assert a.w==b.w,(a.w,b.w)
    if c.op=='c': return a if c.p else b
    if a is b: return a
    if c.op=='not': c,a,b=c.a[0],b,a
    if a.w==0:
        if a is TRUE: return OR(c,b)
        if a is FALSE: return AND(NOT(c),b)
        if b is FALSE: return AND(c,a)
        if b is TRUE: return OR(NOT(c),a)
    if a.op=='ite' and a.a[0] is c: a=a.a[1]
    if b.op=='ite' and b.a[0] is c: b=b.a[2]
    if a is b: return a
    if b.op=='ite' and b.a[1] is a: return ITE(OR(c,b.a[0]),a,b.a[2])
    if a.w==1 and a.op=='c' and b.op=='c': pass
    return mk('ite',(c,a,b),a.w)
# ---------- ranges (unsigned), no path information
def urange(t):
    if t._r is None: t._r=_urange(t)
    return t._r
def _urange(t):
    w=t.w; M=mask(w); op=t.op
    if op=='c': return (t.p,t.p)
    if op=='zext': return urange(t.a[0])
    if op=='ite':
        a,b=urange(t.a[1]),urange(t.a[2]); return (min(a[0],b[0]),max(a[1],b[1]))
    if op=='and':
        pass
    if op=='bvand':
        a,b=urange(t.a[0]),urange(t.a[1]); return (0,min(a[1],b[1]))
    if op in('bvor','xor'):
        a,b=urange(t.a[0]),urange(t.a[1]); h=(1<<max(a[1].bit_length(),b[1].bit_length()))-1
        return ((max(a[0],b[0]) if op=='bvor' else 0),h)
    if op=='add':
        a,b=urange(t.a[0]),urange(t.a[1])
        if a[1]+b[1]<=M: return (a[0]+b[0],a[1]+b[1])
        if a[0]+b[0]>M: return (a[0]+b[0]-M-1,a[1]+b[1]-M-1)
    if op=='sub':
        a,b=urange(t.a[0]),urange(t.a[1])
        if a[0]>=b[1]: return (a[0]-b[1],a[1]-b[0])
    if op=='mul':
        a,b=urange(t.a[0]),urange(t.a[1])
        if a[1]*b[1]<=M: return (a[0]*b[0],a[1]*b[1])
    if op=='lshr':
        a=urange(t.a[0])
        if t.a[1].op=='c': s=min(t.a[1].p,w); return (a[0]>>s,a[1]>>s)
        return (0,a[1])
    if op=='shl' and t.a[1].op=='c':
        a=urange(t.a[0]); s=t.a[1].p
        if s<w and (a[1]<<s)<=M: return (a[0]<<s,a[1]<<s)
    if op=='udiv':
        a,b=urange(t.a[0]),urange(t.a[1])
        if b[0]>0: return (a[0]//b[1],a[1]//b[0])
    if op=='urem':
        b=urange(t.a[1]); a=urange(t.a[0])
        if b[0]>0: return (0,min(a[1],b[1]-1))
    if op=='extract':
        hi,lo=t.p; a=urange(t.a[0])
        if a[1]>>lo <= M and (a[1]>>lo)>=0 and a[1].bit_length()<=hi+1: return (a[0]>>lo,a[1]>>lo)
    if op=='concat':
        a,b=urange(t.a[0]),urange(t.a[1]); s=t.a[1].w
        return ((a[0]<<s)+b[0],(a[1]<<s)+b[1])
    if op=='sext':
        a=urange(t.a[0]); iw=t.a[0].w
        if a[1]<(1<<(iw-1)): return a
        if a[0]>=(1<<(iw-1)): d=M-mask(iw); return (a[0]+d,a[1]+d)
    if op=='tab':
        return (min(t.p),max(t.p))
    if op in('clz','ctz','popcnt'): return (0,t.a[0].w)
    return (0,M)
# ---------- bit vectors
def ADD(a,b):
    assert a.w==b.w
    if a.op=='c': a,b=b,a
    if b.op=='c':
        if a.op=='c': return C(a.p+b.p,a.w)
        if b.p==0: return a
        if a.op=='add' and a.a[1].op=='c': return ADD(a.a[0],C(a.a[1].p+b.p,a.w))
        if a.op=='sub' and a.a[0].op=='c': return SUB(C(a.a[0].p+b.p,a.w),a.a[1])
        return mk('add',(a,b),a.w)
    if a.op=='add' and a.a[1].op=='c': return ADD(ADD(a.a[0],b),a.a[1])
    if b.op=='add' and b.a[1].op=='c': return ADD(ADD(a,b.a[0]),b.a[1])
    if b.op=='sub' and b.a[1] is a: return b.a[0]
    if a.op=='sub' and a.a[1] is b: return a.a[0]
    if b.op=='sub' and b.a[0].op=='c' and b.a[0].p==0: return SUB(a,b.a[1])
    if a.op=='sub' and a.a[0].op=='c' and a.a[0].p==0: return SUB(b,a.a[1])
    if a.id>b.id: a,b=b,a
    return mk('add',(a,b),a.w)
def SUB(a,b):
    assert a.w==b.w
    if a is b: return C(0,a.w)
    if b.op=='c': return ADD(a,C(-b.p,a.w))
    if a.op=='add' and a.a[0] is b: return a.a[1]
    if a.op=='add' and a.a[1] is b: return a.a[0]
    if a.op=='c' and b.op=='sub' and b.a[0].op=='c': return ADD(b.a[1],C(a.p-b.a[0].p,a.w))
    if a.op=='c' and b.op=='add' and b.a[1].op=='c': return SUB(C(a.p-b.a[1].p,a.w),b.a[0])
    return mk('sub',(a,b),a.w)
def NEG(a): return SUB(C(0,a.w),a)
def MUL(a,b):
    if a.op=='c': a,b=b,a
    if b.op=='c':
        if a.op=='c': return C(a.p*b.p,a.w)
        if b.p==0: return b
        if b.p==1: return a
        if b.p&(b.p-1)==0: return SHL(a,C(b.p.bit_length()-1,a.w))
        return mk('mul',(a,b),a.w)
    if a.id>b.id: a,b=b,a
    return mk('mul',(a,b),a.w)
def UDIV(a,b):
    if b.op=='c' and b.p:
        if a.op=='c': return C(a.p//b.p,a.w)
        if b.p==1: return a
        if b.p&(b.p-1)==0: return LSHR(a,C(b.p.bit_length()-1,a.w))
    return mk('udiv',(a,b),a.w)
def UREM(a,b):
    if b.op=='c' and b.p:
        if a.op=='c': return C(a.p%b.p,a.w)
        if b.p&(b.p-1)==0: return BAND(a,C(b.p-1,a.w))
    return mk('urem',(a,b),a.w)
def SDIV(a,b):
    if a.op=='c' and b.op=='c' and b.p:
        x,y=sgn(a.p,a.w),sgn(b.p,a.w); q=abs(x)//abs(y); return C(q if (x<0)==(y<0) else -q,a.w)
    return mk('sdiv',(a,b),a.w)
def SREM(a,b):
    if a.op=='c' and b.op=='c' and b.p:
        x,y=sgn(a.p,a.w),sgn(b.p,a.w); r=abs(x)%abs(y); return C(-r if x<0 else r,a.w)
    return mk('srem',(a,b),a.w)
def BNOT(a):
    if a.op=='c': return C(~a.p,a.w)
    return XOR(a,C(-1,a.w))
def BAND(a,b):
    assert a.w==b.w
    if a is b: return a
    if a.op=='c': a,b=b,a
    if b.op=='c':
        m=b.p
        if a.op=='c': return C(a.p&m,a.w)
        if m==0: return b
        if m==mask(a.w): return a
        lo,hi=urange(a)
        if hi<=m and (m&(m+1))==0: return a
        if a.op=='bvand' and a.a[1].op=='c': return BAND(a.a[0],C(a.a[1].p&m,a.w))
        if a.op=='zext' and m>mask(a.a[0].w): return BAND(a,C(m&mask(a.a[0].w),a.w))
        if a.op=='bvor' and a.a[1].op=='c' and (a.a[1].p&m)==0: return BAND(a.a[0],b)
        # contiguous low mask -> zext(extract)
        if (m&(m+1))==0: return ZEXT(EXTRACT(a,m.bit_length()-1,0),a.w)
        # contiguous mask at the top or middle
        tz=(m&-m).bit_length()-1; mm=m>>tz
        if (mm&(mm+1))==0:
            n=mm.bit_length(); x=EXTRACT(a,tz+n-1,tz)
            r=CONCAT(x,C(0,tz)) if tz else x
            return ZEXT(r,a.w)
        return mk('bvand',(a,b),a.w)
    if a.id>b.id: a,b=b,a
    return mk('bvand',(a,b),a.w)
def BOR(a,b):
    assert a.w==b.w
    if a is b: return a
    if a.op=='c': a,b=b,a
    if b.op=='c':
        if a.op=='c': return C(a.p|b.p,a.w)
        if b.p==0: return a
        if b.p==mask(a.w): return b
        if a.op=='bvor' and a.a[1].op=='c': return BOR(a.a[0],C(a.a[1].p|b.p,a.w))
    r=_disj(a,b)
    if r is not None: return r
    if a.op!='c' and b.op!='c' and a.id>b.id: a,b=b,a
    return mk('bvor',(a,b),a.w)
def nzmask(t,d=3):
    """mask of possibly non-zero bits"""
    if t.op=='c': return t.p
    if t.op=='zext': return nzmask(t.a[0],d)
    if t.op=='concat' and d: return (nzmask(t.a[0],d-1)<<t.a[1].w)|nzmask(t.a[1],d-1)
    if t.op=='ite' and d: return nzmask(t.a[1],d-1)|nzmask(t.a[2],d-1)
    if t.op=='bvand' and t.a[1].op=='c': return t.a[1].p
    if t.op=='shl' and t.a[1].op=='c' and d: return (nzmask(t.a[0],d-1)<<t.a[1].p)&mask(t.w)
    if t.op=='bvor' and d: return nzmask(t.a[0],d-1)|nzmask(t.a[1],d-1)
    return (1<<urange(t)[1].bit_length())-1
def _disj(a,b):
    """or/add of terms with disjoint support -> concat when the split is a clean cut"""
    ma,mb=nzmask(a),nzmask(b)
    if ma&mb or ma==0 or mb==0: return None
    if (ma&-ma)>mb: hi,lo,mh,ml=a,b,ma,mb
    elif (mb&-mb)>ma: hi,lo,mh,ml=b,a,mb,ma
    else: return None
    cut=(mh&-mh).bit_length()-1
    x=EXTRACT(hi,hi.w-1,cut); y=EXTRACT(lo,cut-1,0)
    return CONCAT(x,y)
def XOR(a,b):
    assert a.w==b.w
    if a is b: return C(0,a.w)
    if a.op=='c': a,b=b,a
    if b.op=='c':
        if a.op=='c': return C(a.p^b.p,a.w)
        if b.p==0: return a
        if a.op=='xor' and a.a[1].op=='c': return XOR(a.a[0],C(a.a[1].p^b.p,a.w))
        return mk('xor',(a,b),a.w)
    if a.id>b.id: a,b=b,a
    return mk('xor',(a,b),a.w)
def SHL(a,b):
    if b.op=='c':
        s=b.p
        if s>=a.w: return C(0,a.w)
        if s==0: return a
        if a.op=='c': return C(a.p<<s,a.w)
        return CONCAT(EXTRACT(a,a.w-1-s,0),C(0,s))
    return mk('shl',(a,b),a.w)
def LSHR(a,b):
    if b.op=='c':
        s=b.p
        if s>=a.w: return C(0,a.w)
        if s==0: return a
        if a.op=='c': return C(a.p>>s,a.w)
        return ZEXT(EXTRACT(a,a.w-1,s),a.w)
    if a.op=='c' and a.p==0: return a
    return mk('lshr',(a,b),a.w)
def ASHR(a,b):
    if b.op=='c':
        s=min(b.p,a.w-1)
        if s==0: return a
        if a.op=='c': return C(sgn(a.p,a.w)>>s,a.w)
        return SEXT(EXTRACT(a,a.w-1,s),a.w)
    return mk('ashr',(a,b),a.w)
def CONCAT(a,b):
    if a.w==0: raise Exception('concat bool')
    if a.op=='c' and b.op=='c': return C((a.p<<b.w)|b.p,a.w+b.w)
    if a.op=='c' and a.p==0: return ZEXT(b,a.w+b.w)
    if a.op=='extract' and b.op=='extract' and a.a[0] is b.a[0] and a.p[1]==b.p[0]+1:
        return EXTRACT(a.a[0],a.p[0],b.p[1])
    if a.op=='zext': return ZEXT(CONCAT(a.a[0],b),a.w+b.w)
    if b.op=='concat':
        # keep right-nested, merge constants
        if a.op=='c' and b.a[0].op=='c': return CONCAT(CONCAT(a,b.a[0]),b.a[1])
        if a.op=='extract' and b.a[0].op=='extract' and a.a[0] is b.a[0].a[0] and a.p[1]==b.a[0].p[0]+1:
            return CONCAT(EXTRACT(a.a[0],a.p[0],b.a[0].p[1]),b.a[1])
    if a.op=='concat': return CONCAT(a.a[0],CONCAT(a.a[1],b))
    return mk('concat',(a,b),a.w+b.w)
def ZEXT(a,w):
    if a.w==0: return ITE(a,C(1,w),C(0,w))
    if a.w==w: return a
    assert w>a.w
    if a.op=='c': return C(a.p,w)
    if a.op=='zext': a=a.a[0]
    return mk('zext',(a,),w)
def SEXT(a,w):
    if a.w==0: return ITE(a,C(-1,w),C(0,w))
    if a.w==w: return a
    if a.op=='c': return C(sgn(a.p,a.w),w)
    if a.op=='zext': return ZEXT(a.a[0],w)
    if a.op=='sext': a=a.a[0]
    if urange(a)[1]<(1<<(a.w-1)): return ZEXT(a,w)
    return mk('sext',(a,),w)
_exc={}
def EXTRACT(a,hi,lo):
    k=(a.id,hi,lo); r=_exc.get(k)
    if r is None: r=_exc[k]=_extract(a,hi,lo)
    return r
def _extract(a,hi,lo):
    w=hi-lo+1
    assert 0<=lo<=hi<a.w,(hi,lo,a.w)
    if w==a.w: return a
    op=a.op
    if op=='c': return C(a.p>>lo,w)
    if op=='extract': return EXTRACT(a.a[0],hi+a.p[1],lo+a.p[1])
    if op=='zext':
        iw=a.a[0].w
        if lo>=iw: return C(0,w)
        if hi<iw: return EXTRACT(a.a[0],hi,lo)
        return ZEXT(EXTRACT(a.a[0],iw-1,lo),w)
    if op=='sext':
        iw=a.a[0].w
        if hi<iw: return EXTRACT(a.a[0],hi,lo)
        if lo<iw: return SEXT(EXTRACT(a.a[0],iw-1,lo),w)
    if op=='concat':
        lw=a.a[1].w
        if hi<lw: return EXTRACT(a.a[1],hi,lo)
        if lo>=lw: return EXTRACT(a.a[0],hi-lw,lo-lw)
        return CONCAT(EXTRACT(a.a[0],hi-lw,0),EXTRACT(a.a[1],lw-1,lo))
    if op=='ite' and (a.a[1].op in('c','concat','zext','extract') or a.a[2].op in('c','concat','zext','extract')) : return ITE(a.a[0],EXTRACT(a.a[1],hi,lo),EXTRACT(a.a[2],hi,lo))
    if op in('bvand','bvor','xor'):
        if a.a[1].op=='c':
            f={'bvand':BAND,'bvor':BOR,'xor':XOR}[op]
            return f(EXTRACT(a.a[0],hi,lo),EXTRACT(a.a[1],hi,lo))
    if lo==0 and op in('add','sub','mul') :
        f={'add':ADD,'sub':SUB,'mul':MUL}[op]
        return f(EXTRACT(a.a[0],hi,0),EXTRACT(a.a[1],hi,0))
    if a.op=='tab': return TAB([ (v>>lo)&mask(w) for v in a.p],a.a[0],w)
    return mk('extract',(a,),w,(hi,lo))
def ULT(a,b):
    assert a.w==b.w
    if a is b: return FALSE
    if a.op=='c' and b.op=='c': return B(a.p<b.p)
    ra,rb=urange(a),urange(b)
    if ra[1]<rb[0]: return TRUE
    if ra[0]>=rb[1]: return FALSE
    if a.op=='zext' and b.op=='c' and a.a[0].w: return ULT(a.a[0],C(b.p,a.a[0].w)) if b.p<=mask(a.a[0].w) else TRUE
    if b.op=='zext' and a.op=='c': return ULT(C(a.p,b.a[0].w),b.a[0]) if a.p<=mask(b.a[0].w) else FALSE
    if a.op=='zext' and b.op=='zext' and a.a[0].w==b.a[0].w: return ULT(a.a[0],b.a[0])
    return mk('ult',(a,b),0)
def ULE(a,b): return NOT(ULT(b,a))
def UGT(a,b): return ULT(b,a)
def UGE(a,b): return NOT(ULT(a,b))
def SLT(a,b):
    assert a.w==b.w
    if a is b: return FALSE
    if a.op=='c' and b.op=='c': return B(sgn(a.p,a.w)<sgn(b.p,b.w))
    la,ha=srange(a); lb,hb=srange(b)
    if ha<lb: return TRUE
    if la>=hb: return FALSE
    if la>=0 and lb>=0: return ULT(a,b)
    if b.op=='c' and b.p==0: return EQ(EXTRACT(a,a.w-1,a.w-1),C(1,1))
    if a.op=='c' and a.p==mask(a.w): return EQ(EXTRACT(b,a.w-1,a.w-1),C(0,1))
    return mk('slt',(a,b),0)
_sr={}
def srange(t):
    r=_sr.get(t.id)
    if r is None: r=_sr[t.id]=_srange(t)
    return r
def _srange(t):
    w=t.w; lo,hi=urange(t); h=1<<(w-1)
    if hi<h: return (lo,hi)
    if lo>=h: return (lo-2*h,hi-2*h)
    m,M=-h,h-1
    if t.op=='sext': return srange(t.a[0])
    if t.op=='ite':
        a,b=srange(t.a[1]),srange(t.a[2]); return (min(a[0],b[0]),max(a[1],b[1]))
    if t.op=='add':
        a,b=srange(t.a[0]),srange(t.a[1])
        if a[0]+b[0]>=m and a[1]+b[1]<=M: return (a[0]+b[0],a[1]+b[1])
    if t.op=='sub':
        a,b=srange(t.a[0]),srange(t.a[1])
        if a[0]-b[1]>=m and a[1]-b[0]<=M: return (a[0]-b[1],a[1]-b[0])
    if t.op=='mul':
        a,b=srange(t.a[0]),srange(t.a[1])
        ps=[x*y for x in a for y in b]
        if min(ps)>=m and max(ps)<=M: return (min(ps),max(ps))
    if t.op=='ashr' and t.a[1].op=='c':
        a=srange(t.a[0]); return (a[0]>>t.a[1].p,a[1]>>t.a[1].p)
    return (m,M)
def SLE(a,b): return NOT(SLT(b,a))
def SGT(a,b): return SLT(b,a)
def SGE(a,b): return NOT(SLT(a,b))
def TAB(vals,idx,w):
    """constant table lookup; index beyond the end yields the last entry (guarded separately)"""
    vals=tuple(v&mask(w) for v in vals)
    if idx.op=='c': return C(vals[min(idx.p,len(vals)-1)],w)
    if all(v==vals[0] for v in vals): return C(vals[0],w)
    return mk('tab',(idx,),w,vals)
def onemask(t,d=5):
    """mask of bits known to be one"""
    if t.op=='c': return t.p
    if not d: return 0
    if t.op=='zext': return onemask(t.a[0],d-1)
    if t.op=='concat': return (onemask(t.a[0],d-1)<<t.a[1].w)|onemask(t.a[1],d-1)
    if t.op=='ite': return onemask(t.a[1],d-1)&onemask(t.a[2],d-1)
    if t.op=='bvor': return onemask(t.a[0],d-1)|onemask(t.a[1],d-1)
    if t.op=='shl' and t.a[1].op=='c': return (onemask(t.a[0],d-1)<<t.a[1].p)&mask(t.w)
    return 0
def CLZ(a):
    if a.op=='c': return C(a.w-a.p.bit_length(),a.w)
    one=onemask(a)
    if one and one.bit_length()==nzmask(a,5).bit_length(): return C(a.w-one.bit_length(),a.w)
    return mk('clz',(a,),a.w)
def CTZ(a):
    if a.op=='c': return C((a.p&-a.p).bit_length()-1 if a.p else a.w,a.w)
    return mk('ctz',(a,),a.w)
def POPCNT(a):
    if a.op=='c': return C(bin(a.p).count('1'),a.w)
    return mk('popcnt',(a,),a.w)
def BSWAP(a):
    r=None
    for i in range(a.w//8):
        b=EXTRACT(a,8*i+7,8*i); r=b if r is None else CONCAT(r,b)
    return r
def UMIN(a,b): return ITE(ULT(a,b),a,b)
def UMAX(a,b): return ITE(ULT(a,b),b,a)
def SMIN(a,b): return ITE(SLT(a,b),a,b)
def SMAX(a,b): return ITE(SLT(a,b),b,a)
# ---------- floating point (bits in, bits out).  fw in {32,64,80}; rm is a BV2
RNE,RTN,RTP,RTZ=C(0,2),C(1,2),C(2,2),C(3,2)
def _fw(w): return 79 if w==80 else w
def _in(v,w): return sf.ld80_to79(v) if w==80 else v
def _out(v,w): return sf.ld79_to80(v) if w==80 else v
_bin={'fadd':sf.add,'fsub':sf.sub,'fmul':sf.mul,'fdiv':sf.div}
def FOP(op,rm,*a):
    w=a[0].w
    if rm.op=='c' and all(x.op=='c' for x in a):
        return C(_eval_f(op,rm.p,[x.p for x in a],w),w)
    if op in('fadd','fmul') and a[0].id>a[1].id: a=(a[1],a[0])
    if op=='fma' and a[0].id>a[1].id: a=(a[1],a[0],a[2])
    return mk(op,(rm,)+tuple(a),w)
def _eval_f(op,rm,v,w):
    f=_fw(w); v=[_in(x,w) for x in v]
    if op in _bin: r=_bin[op](v[0],v[1],f,rm)
    elif op=='fma': r=sf.fma(v[0],v[1],v[2],f,rm)
    elif op=='fsqrt': r=sf.sqrt(v[0],f,rm)
    elif op=='rti': r=sf.rti(v[0],f,rm)
    else: raise Exception(op)
    return _out(r,w)
def RTI_A(a):  # ties away
    if a.op=='c': return C(_out(sf.rti(_in(a.p,a.w),_fw(a.w),4),a.w),a.w)
    return mk('rtia',(a,),a.w)
def FREM(a,b):  # IEEE remainder
    if a.op=='c' and b.op=='c': return C(_out(sf.ieee_rem(_in(a.p,a.w),_in(b.p,a.w),_fw(a.w)),a.w),a.w)
    return mk('frem',(a,b),a.w)
def FCMP(op,a,b):  # feq flt fle
    if a.op=='c' and b.op=='c': return B(_cmp(op,a.p,b.p,a.w))
    if op=='feq' and a.id>b.id: a,b=b,a
    if a is b and op=='flt': return FALSE
    return mk(op,(a,b),0)
def _cmp(op,a,b,w):
    c=sf.cmp(_in(a,w),_in(b,w),_fw(w))
    if c is None: return False
    return {'feq':c==0,'flt':c<0,'fle':c<=0}[op]
def FSAME(a,b):
    """both NaN, or identical value including the sign of zero"""
    if a is b: return TRUE
    if a.op=='c' and b.op=='c': return B(_same(a.p,b.p,a.w))
    if a.id>b.id: a,b=b,a
    return mk('fsame',(a,b),0)
def _same(a,b,w):
    a,b=_in(a,w),_in(b,w); f=_fw(w)
    return a==b or (sf.is_nan(a,f) and sf.is_nan(b,f))
def emb(w): return {16:(5,10),32:(8,23),64:(11,52),80:(15,63)}[w]
def sign_of(a): return EXTRACT(a,a.w-1,a.w-1)
def neg_p(a): return EQ(sign_of(a),C(1,1))
def expo(a):
    eb,mb=emb(a.w)
    return EXTRACT(a,78,64) if a.w==80 else EXTRACT(a,eb+mb-1,mb)
def mant(a):
    eb,mb=emb(a.w); return EXTRACT(a,mb-1,0)
def FNAN(a):
    eb,mb=emb(a.w); return AND(EQ(expo(a),C(-1,eb)),NE(mant(a),C(0,mb))) if not _natfp(a) else mk('fisnan',(a,),0)
def FINF(a):
    eb,mb=emb(a.w); return AND(EQ(expo(a),C(-1,eb)),EQ(mant(a),C(0,mb))) if not _natfp(a) else mk('fisinf',(a,),0)
FPOPS={'fadd','fsub','fmul','fdiv','fma','fsqrt','rti','rtia','frem','fcvt','sitofp','uitofp'}
def _natfp(a,d=6):
    """the natural view of this term is floating point"""
    if a.op in FPOPS: return True
    if a.op=='ite' and d: return _natfp(a.a[1],d-1) or _natfp(a.a[2],d-1)
    if a.op=='xor' and a.a[1].op=='c' and a.a[1].p==1<<(a.w-1): return _natfp(a.a[0],d)
    if a.op=='fabs': return _natfp(a.a[0],d)
    return False
def FZERO(a): return EQ(EXTRACT(a,a.w-2,0),C(0,a.w-1)) if not _natfp(a) else FCMP('feq',a,C(0,a.w))
def FFIN(a):
    eb,mb=emb(a.w); return NE(expo(a),C(-1,eb)) if not _natfp(a) else NOT(OR(FNAN(a),FINF(a)))
def FNEG(a): return XOR(a,C(1<<(a.w-1),a.w))
def FABS(a):
    if _natfp(a): return mk('fabs',(a,),a.w)
    return ZEXT(EXTRACT(a,a.w-2,0),a.w)
def FCVT(rm,a,w):
    if a.w==w: return a
    if a.op=='c' and (rm.op=='c' or w>a.w):
        return C(_out(sf.cvt(_in(a.p,a.w),_fw(a.w),_fw(w),rm.p if rm.op=='c' else 0),w),w)
    return mk('fcvt',(rm,a),w)
def ITOF(op,rm,a,w):  # sitofp / uitofp
    if a.w==0: a=ZEXT(a,32) if op=='uitofp' else SEXT(a,32)
    if a.op=='zext' and op=='sitofp': op='uitofp'
    if a.op=='zext' and op=='uitofp': a=a.a[0]
    if a.op=='sext' and op=='sitofp': a=a.a[0]
    if a.op=='c' and rm.op=='c':
        return C(_out(sf.from_int(sgn(a.p,a.w) if op=='sitofp' else a.p,_fw(w),rm.p),w),w)
    return mk(op,(rm,a),w)
def FTOI(op,rm,a,w):  # fptosi / fptoui, rm as BV2 (RTZ for C casts); out of range: unspecified (x86: indefinite)
    if a.op=='c' and rm.op=='c': return C(_ftoi(op,rm.p,a.p,a.w,w),w)
    return mk(op,(rm,a),w)
def _ftoi(op,rm,v,fw,w):
    r=sf.to_int(_in(v,fw),_fw(fw),rm)
    if op=='fptosi':
        if r is None or not -(1<<(w-1))<=r<(1<<(w-1)): return 1<<(w-1)
    else:
        if r is None or not 0<=r<(1<<w): return mask(w)
    return r&mask(w)
def UF(name,args,w): return mk('uf',tuple(args),w,name)
# ---------- evaluation
def postorder(roots):
    seen=set(); out=[]
    for r in roots:
        if r.id in seen: continue
        st=[(r,0)]
        while st:
            t,i=st.pop()
            if i==0:
                if t.id in seen: continue
                seen.add(t.id)
            if i<len(t.a):
                st.append((t,i+1)); c=t.a[i]
                if c.id not in seen: st.append((c,0))
            else: out.append(t)
    return out
class Unsupported(Exception): pass
def evaluate(roots,env,ufs=None,order=None):
    """env: name -> int.  missing variables evaluate to 0.  Returns list of ints."""
    val={}
    for t in (order or postorder(roots)):
        op=t.op; w=t.w
        if op=='c': val[t.id]=t.p; continue
        if op=='v': val[t.id]=env.get(t.p,0)&(mask(w) if w else 1); continue
        a=[val[x.id] for x in t.a]; W=t.a[0].w if t.a else 0
        if op=='not': r=1-a[0]
        elif op=='and': r=a[0]&a[1]
        elif op=='or': r=a[0]|a[1]
        elif op=='eq': r=int(a[0]==a[1])
        elif op=='ite': r=a[1] if a[0] else a[2]
        elif op=='add': r=a[0]+a[1]
        elif op=='sub': r=a[0]-a[1]
        elif op=='mul': r=a[0]*a[1]
        elif op=='udiv': r=a[0]//a[1] if a[1] else -1
        elif op=='urem': r=a[0]%a[1] if a[1] else a[0]
        elif op in('sdiv','srem'):
            x,y=sgn(a[0],w),sgn(a[1],w)
            if y==0: r=(1 if x<0 else -1) if op=='sdiv' else x
            else:
                q=abs(x)//abs(y); q=q if (x<0)==(y<0) else -q
                r=q if op=='sdiv' else x-q*y
        elif op=='bvand': r=a[0]&a[1]
        elif op=='bvor': r=a[0]|a[1]
        elif op=='xor': r=a[0]^a[1]
        elif op=='shl': r=a[0]<<a[1] if a[1]<w else 0
        elif op=='lshr': r=a[0]>>a[1] if a[1]<w else 0
        elif op=='ashr': r=sgn(a[0],w)>>min(a[1],w-1)
        elif op=='concat': r=(a[0]<<t.a[1].w)|a[1]
        elif op=='zext': r=a[0]
        elif op=='sext': r=sgn(a[0],W)
        elif op=='extract': r=a[0]>>t.p[1]
        elif op=='ult': r=int(a[0]<a[1])
        elif op=='slt': r=int(sgn(a[0],W)<sgn(a[1],W))
        elif op=='tab': r=t.p[min(a[0],len(t.p)-1)]
        elif op=='clz': r=W-a[0].bit_length()
        elif op=='ctz': r=(a[0]&-a[0]).bit_length()-1 if a[0] else W
        elif op=='popcnt': r=bin(a[0]).count('1')
        elif op in('fadd','fsub','fmul','fdiv','fma','fsqrt','rti'): r=_eval_f(op,a[0],a[1:],w)
        elif op=='rtia': r=_out(sf.rti(_in(a[0],w),_fw(w),4),w)
        elif op=='frem': r=_out(sf.ieee_rem(_in(a[0],w),_in(a[1],w),_fw(w)),w)
        elif op in('feq','flt','fle'): r=int(_cmp(op,a[0],a[1],W))
        elif op=='fsame': r=int(_same(a[0],a[1],W))
        elif op=='fisnan': r=int(sf.is_nan(_in(a[0],W),_fw(W)))
        elif op=='fisinf': r=int(sf.is_inf(_in(a[0],W),_fw(W)))
        elif op=='fabs': r=a[0]&mask(w-1)
        elif op=='fcvt': r=_out(sf.cvt(_in(a[1],t.a[1].w),_fw(t.a[1].w),_fw(w),a[0]),w)
        elif op=='sitofp': r=_out(sf.from_int(sgn(a[1],t.a[1].w),_fw(w),a[0]),w)
        elif op=='uitofp': r=_out(sf.from_int(a[1],_fw(w),a[0]),w)
        elif op in('fptosi','fptoui'): r=_ftoi(op,a[0],a[1],t.a[1].w,w)
        elif op=='uf':
            if not ufs or t.p not in ufs: raise Unsupported('uf '+t.p)
            r=ufs[t.p](*a)
        else: raise Unsupported(op)
        val[t.id]=r&(mask(w) if w else 1)
    return [val[r.id] for r in roots]
def variables(roots): return [t for t in postorder(roots) if t.op=='v']
def substitute(roots,m):
    """rebuild with simplification; m: var-id -> term"""
    new={}
    for t in postorder(roots):
        if t.id in m: new[t.id]=m[t.id]; continue
        if not t.a: new[t.id]=t; continue
        a=[new[x.id] for x in t.a]
        if all(x is y for x,y in zip(a,t.a)): new[t.id]=t; continue
        new[t.id]=rebuild(t,a)
    return [new[r.id] for r in roots]
def rebuild(t,a):
    op=t.op
    f={'not':NOT,'and':_and,'or':_or,'eq':EQ,'ite':ITE,'add':ADD,'sub':SUB,'mul':MUL,'udiv':UDIV,'urem':UREM,'sdiv':SDIV,'srem':SREM,
       'bvand':BAND,'bvor':BOR,'xor':XOR,'shl':SHL,'lshr':LSHR,'ashr':ASHR,'concat':CONCAT,'ult':ULT,'slt':SLT,'clz':CLZ,'ctz':CTZ,'popcnt':POPCNT,
       'rtia':RTI_A,'frem':FREM,'fsame':FSAME,'fabs':FABS,'fisnan':FNAN,'fisinf':FINF}.get(op)
    if f: return f(*a)
    if op=='zext': return ZEXT(a[0],t.w)
    if op=='sext': return SEXT(a[0],t.w)
    if op=='extract': return EXTRACT(a[0],*t.p)
    if op=='tab': return TAB(t.p,a[0],t.w)
    if op in('feq','flt','fle'): return FCMP(op,*a)
    if op in('fadd','fsub','fmul','fdiv','fma','fsqrt','rti'): return FOP(op,*a)
    if op=='fcvt': return FCVT(a[0],a[1],t.w)
    if op in('sitofp','uitofp'): return ITOF(op,a[0],a[1],t.w)
    if op in('fptosi','fptoui'): return FTOI(op,a[0],a[1],t.w)
    if op=='uf': return UF(t.p,a,t.w)
    raise Exception(op)
def absmul(asserts,minw=16):
    """replace products of two non-constant terms by fresh variables (same operands: same variable).  Returns new
    asserts plus true facts about the products; unsat of these implies unsat of the originals."""
    def core(t):
        while t.op=='zext': t=t.a[0]
        return t
    m={}; vs={}; facts=[]
    order=postorder(asserts)
    # innermost first; operands are themselves rebuilt by substitute, products of products stay opaque
    for t in order:
        if t.op=='mul' and t.w>=minw and not any(x.op=='c' for x in t.a):
            a,b=sorted((core(t.a[0]),core(t.a[1])),key=lambda q:q.id)
            k=(a.id,b.id)
            if k not in vs:
                w=a.w+b.w; v=V('prod!%d'%len(vs),w); vs[k]=v
                facts.append(EQ(EQ(v,C(0,w)),OR(EQ(a,C(0,a.w)),EQ(b,C(0,b.w))))); facts.append(ULE(v,C(mask(a.w)*mask(b.w),w)))
            v=vs[k]; m[t.id]=ZEXT(v,t.w) if v.w<=t.w else EXTRACT(v,t.w-1,0)
    if not m: return None
    r=substitute(list(asserts)+facts,m)
    return r

def absops(asserts,ops,facts=None):
    """replace every node whose operator is in ops (innermost first) by a fresh variable; facts(node,var) gives true
    statements about the node, which are added.  unsat of the result implies unsat of the originals."""
    m={}; fs=[]
    if hasattr(facts,'fresh'): facts=facts.fresh()
    new={}
    for t in postorder(asserts):
        if not t.a: new[t.id]=t; continue
        a=[new[x.id] for x in t.a]
        u=t if all(x is y for x,y in zip(a,t.a)) else rebuild(t,a)
        if u.op in ops and not all(x.op=='c' for x in u.a):
            if u.id not in m:
                v=V('abs!%d'%len(m),u.w); m[u.id]=v
                if facts: fs+=facts(u,v) or []
            u=m[u.id]
        new[t.id]=u
    return [new[r.id] for r in asserts]+fs
