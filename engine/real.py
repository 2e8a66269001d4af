"""Real-arithmetic view of floating-point terms, for range and accuracy goals.

A region fixes the sign of each floating input and brackets its magnitude bits; the executed path is then followed through
the term graph.  Every rounded operation becomes exact real operation + error, |error| <= half (directed: one) unit of the
result's largest binade (and <= u*|exact|); bit manipulations become linear integer arithmetic (exact).  z3 decides
conditions, range invariants (candidates come from concrete runs, the solver proves them) and the goals over these linear
real/integer constraints, so 'unsat' covers every input of the region.  Undecided conditions split the region."""
import sys,math,random,struct
from fractions import Fraction as Q
import z3
from terms import *
import terms as tm, softfloat as sf
sys.setrecursionlimit(100000)
class Fail(Exception): pass
class Split(Exception):
    def __init__(s,atom): s.atom=atom
class NotFinite(Fail): pass
class Over(NotFinite):
    """the operation certainly overflows to infinity (nearest rounding)"""
    def __init__(s,t,sign): s.t=t; s.sign=sign; Fail.__init__(s,'overflow')
PREC={16:11,32:24,64:53}; EMIN={16:-24,32:-149,64:-1074}; EMAX={16:16,32:128,64:1024}; BIAS={16:15,32:127,64:1023}
def val(b,w):
    """bits -> Fraction (finite)"""
    p=PREC[w]; mb=p-1; s=b>>(w-1); e=(b>>mb)&((1<<(w-1-mb))-1); m=b&((1<<mb)-1)
    if e==(1<<(w-1-mb))-1: return None
    v=Q(m)*Q(2)**EMIN[w] if e==0 else Q(m|(1<<mb))*Q(2)**(e-1+EMIN[w])
    return -v if s else v
def flog2(q):
    """floor(log2 |q|), q!=0"""
    q=abs(q); e=q.numerator.bit_length()-q.denominator.bit_length()
    while Q(2)**e>q: e-=1
    while Q(2)**(e+1)<=q: e+=1
    return e
def lsb(q):
    if q==0: return 10**6
    n,d=abs(q.numerator),q.denominator
    return (n&-n).bit_length()-1-(d.bit_length()-1) if d&(d-1)==0 else None
def qv(q): return z3.Q(q.numerator,q.denominator) if q.denominator!=1 else z3.RealVal(q.numerator)
class N:
    """a finite floating-point node: e z3 real expression, lo..hi proven bounds, q: every value is a multiple of 2^q"""
    __slots__=('e','lo','hi','q','w','t')
    def __init__(s,e,lo,hi,q,w,t=None): s.e=e; s.lo=lo; s.hi=hi; s.q=q; s.w=w; s.t=t
    def mx(s): return max(abs(s.lo),abs(s.hi))
INF='inf'
class Region:
    """inputs: name -> (sign, lo, hi) magnitude-bit bracket"""
    def __init__(s,ins,assume=(),seen=()): s.ins=dict(ins); s.assume=tuple(assume); s.seen=frozenset(seen)
_n=[0]
class Ctx:
    def __init__(s,region,widths,roots,stats,rm=0,maxtab=None,tmo=500,prefer=()):
        s.reg=region; s.w=widths; s.stats=stats; s.rm=rm; s.tmo=tmo; s.maxtab=maxtab; s.memo={}; s.imemo={}; s.cmemo={}; s.asm={}
        s.slv=z3.Solver(); s.slv.set('timeout',tmo); s.ncon=0
        s.M={}; s.lo={}; sub={}; s.names={}
        for nm,(sg,a,b) in region.ins.items():
            _n[0]+=1; w=widths[nm]
            if a==b: m=C(a,w-1)
            else:
                m=V('%s~%d'%(nm,_n[0]),w-1); m._r=(a,b); s.M[m.id]=(nm,sg,a,b,w)
            s.names[nm]=(m,sg,a,b,w); sub[V(nm,w).id]=CONCAT(C(sg,1),m) if m.op!='c' else C((sg<<(w-1))|m.p,w)
        s.sub=sub; s.smp=None; fix={}
        for t,v in region.assume:
            c=s.inst([t])[0]
            s.asm[c.id]=v
            if v and c.op=='eq' and c.a[0].w and any(x.op=='c' for x in c.a):
                k,y=(c.a[0],c.a[1]) if c.a[0].op=='c' else (c.a[1],c.a[0]); fix[y.id]=k
        s.roots=s.inst(roots)
        if fix: s.roots=tm.substitute(s.roots,fix)
        s.pend=[s.inst([t])[0] if v else NOT(s.inst([t])[0]) for t,v in region.assume]; s.asserted=0
    def inst(s,ts): return tm.substitute(list(ts),s.sub)
    # ---- samples
    def envs(s,n=60):
        if s.smp is None:
            r=random.Random(5); out=[]
            for k in range(n*(8 if s.reg.assume else 1)):
                e={}
                for nm,(m,sg,a,b,w) in s.names.items():
                    if m.op=='c': continue
                    mb=PREC[w]-1
                    if k<2: v=a if k==0 else b
                    elif k%3==0: v=r.randint(a,b)
                    elif k%3==1: 
                        x,y=val(a,w),val(b,w); f=x+(y-x)*Q(r.random()); v=min(b,max(a,sf_bits(f,w)))
                    else: v=min(b,max(a,(r.randint(a,b)>>(mb-8))<<(mb-8)))
                    e[m.p]=v
                out.append(e)
            if s.reg.assume:
                ts=[s.inst([t])[0] for t,v in s.reg.assume]; vs=[int(v) for t,v in s.reg.assume]; o=postorder(ts)
                out=[e for e in out if evaluate(ts,e,order=o)==vs] or out[:60]
            s.smp=out
        return s.smp
    def srange(s,t):
        """range of a term over the sample inputs: values as Fractions"""
        es=s.envs()
        if not es: return None
        o=postorder([t]); vs=[]
        for e in es:
            try: v=evaluate([t],e,order=o)[0]
            except Unsupported: return None
            vs.append(v)
        return vs
    # ---- solver
    def add(s,*cs):
        for c in cs: s.slv.add(c); s.ncon+=1
    def proves(s,c,tmo=None):
        s.stats['lemmas']+=1
        import time; t0=time.time()
        s.slv.push(); s.slv.add(z3.Not(c))
        if tmo: s.slv.set('timeout',tmo)
        r=s.slv.check()
        s.slv.pop()
        if tmo: s.slv.set('timeout',s.tmo)
        s.stats['secs']+=time.time()-t0
        s.stats["max"]=max(s.stats.get("max",0),time.time()-t0); s.stats[str(r)]=s.stats.get(str(r),0)+1
        return r==z3.unsat
    def possible(s,c):
        return not s.proves(z3.Not(c))
    # ---- floating point nodes
    def fp(s,t):
        n=s.memo.get(t.id)
        if n is None: n=s.memo[t.id]=s._fp(t)
        return n
    def new(s,pre='r'): _n[0]+=1; return z3.Real('%s%d'%(pre,_n[0]))
    def newi(s): _n[0]+=1; return z3.Int('i%d'%_n[0])
    def const(s,v,w):
        if v==INF: return INF
        q=lsb(v); return N(qv(v),v,v,q,w)
    def _fp(s,t):
        op=t.op; w=t.w
        if op=='c':
            v=val(t.p,w)
            if v is None: raise (Over(t,t.p>>(w-1)) if not t.p<<1&mask(PREC[w]) else NotFinite('constant %x'%t.p))
            return s.const(v,w)
        if op=='ite': return s.fp(t.a[1] if s.decide(t.a[0]) else t.a[2])
        if op=='xor' and t.a[1].op=='c' and t.a[1].p==1<<(w-1):
            n=s.fp(t.a[0]); return N(-n.e,-n.hi,-n.lo,n.q,w)
        if op=='fabs' or (op=='zext' and t.a[0].op=='extract' and t.a[0].p==(w-2,0) and t.w==w and tm._natfp(t.a[0].a[0])):
            n=s.fp(t.a[0] if op=='fabs' else t.a[0].a[0])
            if n.lo>=0: return n
            if n.hi<=0: return N(-n.e,-n.hi,-n.lo,n.q,w)
            r=s.new(); s.add(r==z3.If(n.e>=0,n.e,-n.e)); return N(r,Q(0),n.mx(),n.q,w)
        if op=='concat' and t.a[0].op=='c' and t.a[0].w==1 and t.a[1].id in s.M:
            nm,sg,a,b,ww=s.M[t.a[1].id]; lo,hi=val(a,ww),val(b,ww)
            if t.a[0].p: lo,hi=-hi,-lo
            r=z3.Real('x_%s_%s'%(t.a[1].p.replace('~','_'),t.a[0].p))
            s.add(r>=qv(lo),r<=qv(hi))
            if t.a[0].p!=sg: s.add(r==-z3.Real('x_%s_%s'%(t.a[1].p.replace('~','_'),sg)))
            mn=min(abs(lo),abs(hi)); q=max(EMIN[ww],(flog2(mn)-PREC[ww]+1) if mn else EMIN[ww])
            return N(r,lo,hi,q,w,t)
        if op in('fadd','fsub','fmul','fdiv','fma','fsqrt','fcvt','sitofp','uitofp','rti'): return s.arith(t)
        return s.bits(t)
    def outcome(s,t):
        """the node of a term, or 'inf'/'-inf'/'nan' when it certainly is one"""
        while t.op=='ite': t=t.a[1] if s.decide(t.a[0]) else t.a[2]
        if t.op=='c' and val(t.p,t.w) is None: return 'nan' if sf.is_nan(t.p,t.w) else '-inf' if t.p>>(t.w-1) else 'inf'
        if t.op in('fadd','fsub'):
            a=s.tryout(t.a[1]); b=s.tryout(t.a[2])
            if isinstance(b,str) and t.op=='fsub': b={'inf':'-inf','-inf':'inf'}.get(b,b)
            for x,y in((a,b),(b,a)):
                if x in('inf','-inf') and y is not None and (isinstance(y,N) or y==x): return x
        try: return s.fp(t)
        except Over as e:
            if e.t is t: return '-inf' if e.sign else 'inf'
            raise
    def tryout(s,t):
        try: return s.outcome(t)
        except Fail: return None
    def arith(s,t):
        op=t.op; w=t.w
        rm=t.a[0].p if t.a[0].op=='c' else 4
        if op in('sitofp','uitofp'):
            e,lo,hi=s.int(t.a[1],signed=op=='sitofp'); lo,hi=Q(lo),Q(hi); ex=z3.ToReal(e); q=0
            return s.rnd(t,ex,lo,hi,q,w,rm)
        a=[s.fp(x) for x in t.a[1:]]
        if op=='fcvt':
            n=a[0]
            if w>=t.a[1].w: return N(n.e,n.lo,n.hi,n.q,w)
            return s.rnd(t,n.e,n.lo,n.hi,n.q,w,rm)
        if op in('fadd','fsub'):
            x,y=a
            if op=='fsub': y=N(-y.e,-y.hi,-y.lo,y.q,w)
            if t.a[1] is t.a[2] and op=='fsub': return s.const(Q(0),w)
            lo,hi=x.lo+y.lo,x.hi+y.hi
            for i in(1,2):  # f + f*g = f*(1+g)
                m,ft=t.a[i],t.a[3-i]
                if m.op=='fmul' and (m.a[1] is ft or m.a[2] is ft) and ft.op!='c':
                    f=s.fp(ft); g=s.fp(m.a[2] if m.a[1] is ft else m.a[1]); u=Q(2)**(-PREC[w]+(1 if rm else 0)); eta=Q(2)**(EMIN[w]-1+(1 if rm else 0))
                    sg=1 if op=='fadd' else -1 if i==2 else 0
                    if not sg or f.lo<=0: continue
                    gs=[sg*v*(1+d) for v in(g.lo,g.hi) for d in(u,-u)]; F0,F1=1+min(gs),1+max(gs)
                    if F0>0: lo,hi=max(lo,f.lo*F0-eta),min(hi,f.hi*F1+eta)
            return s.rnd(t,x.e+y.e,lo,hi,min(x.q,y.q),w,rm)
        if op=='fmul':
            x,y=a; ps=[p*q for p in(x.lo,x.hi) for q in(y.lo,y.hi)]; lo,hi=min(ps),max(ps)
            if x is y or t.a[1] is t.a[2]: lo=Q(0) if x.lo<=0<=x.hi else min(x.lo**2,x.hi**2)
            return s.rnd(t,s.prod(x,y,lo,hi),lo,hi,x.q+y.q,w,rm)
        if op=='fma':
            x,y,z=a; ps=[p*q for p in(x.lo,x.hi) for q in(y.lo,y.hi)]; lo,hi=min(ps),max(ps)
            if t.a[1] is t.a[2]: lo=Q(0) if x.lo<=0<=x.hi else min(x.lo**2,x.hi**2)
            L,U=lo+z.lo,hi+z.hi
            for f,g,ft in((x,y,t.a[1]),(y,x,t.a[2])):
                if ft is t.a[3] and f.lo>0 and 1+g.lo>0: L,U=max(L,f.lo*(1+g.lo)),min(U,f.hi*(1+g.hi))
            return s.rnd(t,s.prod(x,y,lo,hi)+z.e,L,U,min(x.q+y.q,z.q),w,rm)
        if op=='fdiv':
            x,y=a
            if y.lo<=0<=y.hi: raise Fail('division by a range containing zero')
            ps=[p/q for p in(x.lo,x.hi) for q in(y.lo,y.hi)]; lo,hi=min(ps),max(ps)
            if y.lo==y.hi: ex=x.e*qv(1/y.lo)
            else:
                ex=s.new('d'); qn=N(ex,lo,hi,EMIN[w],w); s.add(ex>=qv(lo),ex<=qv(hi)); s.add(s.prod(qn,y,x.lo,x.hi)==x.e)
            return s.rnd(t,ex,lo,hi,None,w,rm)
        if op=='fsqrt':
            x=a[0]
            if x.lo<0: raise Fail('square root of a possibly negative value')
            lo=Q(math.isqrt(int(x.lo*2**200)),2**100); hi=Q(math.isqrt(int(x.hi*2**200))+1,2**100)
            ex=s.new('d'); s.add(ex>=qv(lo),ex<=qv(hi)); n=N(ex,lo,hi,EMIN[w],w); s.add(s.prod(n,n,x.lo,x.hi)==x.e)
            return s.rnd(t,ex,lo,hi,None,w,rm)
        if op=='rti':
            x=a[0]; r=s.new(); i=s.newi(); s.add(r==z3.ToReal(i)); d=Q(1,2) if rm==0 else Q(1)
            s.add(r-x.e<=qv(d),x.e-r<=qv(d))
            if rm==1: s.add(r<=x.e)
            if rm==2: s.add(r>=x.e)
            lo,hi=Q(math.floor(x.lo)),Q(math.ceil(x.hi)); s.add(r>=qv(lo),r<=qv(hi)); return s.tight(t,N(r,lo,hi,0,w))
        raise Fail(op)
    def prod(s,x,y,lo,hi):
        if x.lo==x.hi: return y.e*qv(x.lo)
        if y.lo==y.hi: return x.e*qv(y.lo)
        k=('m',)+tuple(sorted((x.e.get_id(),y.e.get_id())))
        if k in s.memo: return s.memo[k][0]
        p=s.new('p'); s.memo[k]=(p,x.e,y.e)
        # McCormick envelope of the product over the proven ranges
        s.add(p>=x.e*qv(y.lo)+y.e*qv(x.lo)-qv(x.lo*y.lo),p>=x.e*qv(y.hi)+y.e*qv(x.hi)-qv(x.hi*y.hi),
              p<=x.e*qv(y.lo)+y.e*qv(x.hi)-qv(x.hi*y.lo),p<=x.e*qv(y.hi)+y.e*qv(x.lo)-qv(x.lo*y.hi),p>=qv(lo),p<=qv(hi))
        return p
    def rnd(s,t,ex,lo,hi,q,w,rm):
        p=PREC[w]; mx=max(abs(lo),abs(hi))
        n=s.rnd0(t,ex,lo,hi,q,w,rm)
        return n
    def rnd0(s,t,ex,lo,hi,q,w,rm):
        p=PREC[w]
        # a tighter bracket of the exact value when the operands are related
        lo,hi=s.narrow(t,ex,lo,hi,w)
        mx=max(abs(lo),abs(hi)); top=Q(2)**EMAX[w]-Q(2)**(EMAX[w]-p)
        if mx==0: return s.const(Q(0),w)
        if rm==0 and lo>=top+Q(2)**(EMAX[w]-p-1): raise Over(t,0)
        if rm==0 and -hi>=top+Q(2)**(EMAX[w]-p-1): raise Over(t,1)
        if q is not None and q>=EMIN[w] and mx<=Q(2)**(p+q): 
            if mx>=Q(2)**EMAX[w]: raise NotFinite('overflow')
            r=s.new(); s.add(r==ex); return N(r,lo,hi,q,w)
        if mx>top: raise NotFinite('possible overflow in %s: %.6g..%.6g'%(t.op,float(lo) if abs(lo)<10**300 else 0,float(hi) if abs(hi)<10**300 else 0))
        E=max(flog2(mx),EMIN[w]+p-1)
        err=Q(2)**(E-p+(1 if rm else 0)); r=s.new()
        s.add(r-ex<=qv(err),ex-r<=qv(err))
        # relative form, useful near zero
        u=Q(2)**(-p+(1 if rm else 0)); eta=Q(0) if t.op in('fadd','fsub') else Q(2)**(EMIN[w]-1+(1 if rm else 0))
        lo2,hi2=(rne(lo,w),rne(hi,w)) if rm==0 else (rdn(lo,w),rup(hi,w))  # rounding is monotone
        if lo>=0: s.add(r-ex<=ex*qv(u)+qv(eta),ex-r<=ex*qv(u)+qv(eta))
        elif hi<=0: s.add(r-ex<=-ex*qv(u)+qv(eta),ex-r<=-ex*qv(u)+qv(eta))
        else:
            ab=z3.If(ex>=0,ex,-ex); s.add(r-ex<=ab*qv(u)+qv(eta),ex-r<=ab*qv(u)+qv(eta))
        s.add(r>=qv(lo2),r<=qv(hi2))
        mn=Q(0) if lo2<=0<=hi2 else min(abs(lo2),abs(hi2))
        nq=EMIN[w] if mn==0 else max(EMIN[w],flog2(mn)-p+1)
        if q is not None and t.op in('fadd','fsub'): nq=max(nq,q) if q<10**5 else nq
        return N(r,lo2,hi2,nq,w)
    def opt(s,ex,lo,hi):
        """no sample reaches this case: halve the bracket while the solver proves it"""
        for side in(0,1):
            for _ in range(12):
                m=(lo+hi)/2; wid=hi-lo
                if wid==0: break
                c=(ex>=qv(nice(m,0))) if side==0 else (ex<=qv(nice(m,1)))
                if s.proves(c,300):
                    s.add(c)
                    if side==0: lo=max(lo,nice(m,0))
                    else: hi=min(hi,nice(m,1))
                else: break
        return lo,hi
    def tight(s,t,n): return n
    def narrow(s,t,ex,lo,hi,w):
        if lo==hi: return lo,hi
        vs=s.srange(t)
        if not vs: return s.opt(ex,lo,hi)
        fs=[val(v,w) for v in vs]
        if any(f is None for f in fs): return lo,hi
        a,b=min(fs),max(fs); wid=hi-lo; sw=b-a
        if t.op=='rti' : return lo,hi
        if wid<=4*sw or wid<=Q(2)**-60*max(abs(lo),abs(hi)): return lo,hi
        for f in(Q(1,8),Q(1),Q(20),Q(1000),Q(10)**6):
            m=f*sw+abs(a)*Q(1,2**40)+abs(b)*Q(1,2**40)+Q(2)**-1000
            if f>=1: m+=max(abs(a),abs(b))*Q(1,2**20)
            cl,ch=max(lo,nice(a-m,0)),min(hi,nice(b+m,1))
            if ch-cl>wid/2: break
            if s.proves(z3.And(ex>=qv(cl),ex<=qv(ch)),300): s.add(ex>=qv(cl),ex<=qv(ch)); return cl,ch
        return lo,hi
    # ---- bit patterns as floating point
    def bits(s,t):
        w=t.w; mb=PREC[w]-1
        if t.op=='tab':
            vs=[val(v,w) for v in s.entries(t)]
            if any(v is None for v in vs): raise Fail('table holds non-finite values')
            if s.maxtab: s.splitidx(t.a[0])
            s.splitbase(t.a[0])
            r=s.new('t'); lo,hi=min(vs),max(vs); s.add(r>=qv(lo),r<=qv(hi)); return N(r,lo,hi,min(lsb(v) for v in vs),w)
        e,lo,hi=s.int(t)
        sb=1<<(w-1)
        if lo==hi:
            v=val(lo,w)
            if v is None: raise (Over(t,lo>>(w-1)) if not lo<<1&mask(PREC[w]) else NotFinite('NaN bits'))
            return s.const(v,w)
        if lo>=sb:
            n=s.fbits(e-sb,lo-sb,hi-sb,w); return N(-n.e,-n.hi,-n.lo,n.q,w)
        if hi>=sb:
            raise Fail('bit pattern of unknown sign %x..%x: %s'%(lo,hi,show(t,4)))
        return s.fbits(e,lo,hi,w)
    def fbits(s,e,lo,hi,w):
        mb=PREC[w]-1; a,b=val(lo,w),val(hi,w)
        if b is None: raise NotFinite('bit pattern up to %x'%hi)
        if lo>>mb==hi>>mb:
            E=lo>>mb; r=s.new('b')
            if E: s.add(r==(z3.ToReal(e)-(E<<mb)+(1<<mb))*qv(Q(2)**(E-1+EMIN[w])))
            else: s.add(r==z3.ToReal(e)*qv(Q(2)**EMIN[w]))
            s.add(r>=qv(a),r<=qv(b)); return N(r,a,b,EMIN[w]+max(E-1,0),w)
        r=s.new('b'); s.add(r>=qv(a),r<=qv(b))
        return N(r,a,b,max(EMIN[w],EMIN[w]+(lo>>mb)-1),w)
    # ---- integers
    def int(s,t,signed=False):
        k=(t.id,signed); r=s.imemo.get(k)
        if r is None: r=s.imemo[k]=s._int(t,signed)
        return r
    def tighti(s,t,e,lo,hi,signed=False):
        """sample-guided range of an integer expression"""
        vs=s.srange(t)
        if not vs and hi-lo>64:
            a,b=s.opt(e,Q(lo),Q(hi)); return math.ceil(a),math.floor(b)
        if vs:
            if signed: vs=[sgn(v,t.w) for v in vs]
            a,b=min(vs),max(vs)
            if hi-lo>4*(b-a)+8:
                for f in(0,Q(1,8),2,64):
                    m=int(f*(b-a))+(0 if f==0 else 2); cl,ch=max(lo,a-m),min(hi,b+m)
                    if s.proves(z3.And(e>=cl,e<=ch),300): s.add(e>=cl,e<=ch); return cl,ch
        return lo,hi
    def _int(s,t,signed):
        w=t.w; op=t.op; H=1<<w
        if signed:
            if op=='sext': return s.int(t.a[0],True)
            if op=='ashr' and t.a[1].op=='c':
                e,lo,hi=s.int(t.a[0],True); k=t.a[1].p; d=s.newi(); r=s.newi(); s.add(e==d*(1<<k)+r,r>=0,r<(1<<k)); return d,lo>>k,hi>>k
            if op=='c': v=sgn(t.p,w); return z3.IntVal(v),v,v
            if op=='ite': return s.int(t.a[1] if s.decide(t.a[0]) else t.a[2],True)
            e,lo,hi=s.int(t)
            if hi<H//2: return e,lo,hi
            if lo>=H//2: return e-H,lo-H,hi-H
            d=s.newi(); s.add(d==z3.If(e>=H//2,e-H,e)); lo,hi=s.tighti(t,d,-H//2,H//2-1,True); return d,lo,hi
        if op=='c': return z3.IntVal(t.p),t.p,t.p
        if op=='ite' : return s.int(t.a[1] if s.decide(t.a[0]) else t.a[2])
        if op=='v':
            if t.id in s.M:
                nm,sg,a,b,ww=s.M[t.id]; i=z3.Int('m_'+t.p.replace('~','_')); s.add(i>=a,i<=b)
                # magnitude bits against the real value: exact inside one binade, bracketed otherwise
                x=z3.Real('x_%s_%s'%(t.p.replace('~','_'),sg)); ax=-x if sg else x; mb=PREC[ww]-1
                s.add(x>=qv(-val(b,ww) if sg else val(a,ww)),x<=qv(-val(a,ww) if sg else val(b,ww)))
                if a>>mb==b>>mb:
                    E=a>>mb
                    s.add(ax==(z3.ToReal(i)-(E<<mb)+(1<<mb))*qv(Q(2)**(E-1+EMIN[ww])) if E else ax==z3.ToReal(i)*qv(Q(2)**EMIN[ww]))
                return i,a,b
            raise Fail('free variable '+t.p)
        if op in tm.FPOPS or op=='fabs' or (op=='xor' and tm._natfp(t)):
            n=s.fp(t); mb=PREC[w]-1
            if n.lo==n.hi:
                b=sf_bits(n.lo,w)
                return z3.IntVal(b),b,b
            if n.lo>0 and flog2(n.lo)==flog2(n.hi) or n.lo>0 and n.hi==Q(2)**(flog2(n.lo)+1):
                E=flog2(n.lo); i=s.newi(); base=(E+BIAS[w])<<mb
                s.add((z3.ToReal(i)-base)*qv(Q(2)**(E-mb))==n.e-qv(Q(2)**E))
                lo=base+int((n.lo-Q(2)**E)/Q(2)**(E-mb)); hi=base+int((n.hi-Q(2)**E)/Q(2)**(E-mb)); s.add(i>=lo,i<=hi)
                return i,lo,hi
            if n.lo>0 and flog2(n.hi)-flog2(n.lo)<=64 and t.op in tm.FPOPS:
                k=(flog2(n.lo)+flog2(n.hi)+1)//2; c=FCMP('flt',t,C(sf_bits(Q(2)**k,w),w))
                if c.id not in s.asm: raise Split(c)
            if n.lo>=0:
                i=s.newi(); lo,hi=bits_dn(n.lo,w),bits_dn(n.hi,w)+1; s.add(i>=lo,i<=hi); return i,lo,hi
            if n.hi<0:
                i=s.newi(); sb=1<<(w-1); lo,hi=sb+bits_dn(-n.hi,w),sb+bits_dn(-n.lo,w)+1; s.add(i>=lo,i<=hi); return i,lo,hi
            i=s.newi(); s.add(i>=0,i<(1<<w)); s.add((i>=(1<<(w-1)))==(n.e<0) if False else z3.Or(n.e>0,n.e==0,i>=(1<<(w-1)))); s.add(z3.Or(n.e<0,n.e==0,i<(1<<(w-1)))); return i,0,H-1
        if op=='tab':
            if s.maxtab: s.splitidx(t.a[0])
            s.splitbase(t.a[0])
            i=s.newi(); en=s.entries(t); lo,hi=min(en),max(en); s.add(i>=lo,i<=hi); return i,lo,hi
        if op=='zext':
            if t.a[0].w==0: return s.int(ITE(t.a[0],C(1,w),C(0,w)))
            return s.int(t.a[0])
        if op=='sext':
            e,lo,hi=s.int(t.a[0],True)
            if lo>=0: return e,lo,hi
            if hi<0: return e+H,lo+H,hi+H
            d=s.newi(); s.add(d==z3.If(e<0,e+H,e)); return d,0,H-1
        if op=='concat':
            x,y=s.int(t.a[0]),s.int(t.a[1]); k=1<<t.a[1].w; return x[0]*k+y[0],x[1]*k+y[1],x[2]*k+y[2]
        if op=='extract':
            h,l=t.p; e,lo,hi=s.int(t.a[0])
            if lo==hi: v=(lo>>l)&mask(w); return z3.IntVal(v),v,v
            if l==0 and hi<H: return e,lo,hi
            d=s.newi(); r=s.newi(); s.add(r>=0,r<(1<<l)) if l else s.add(r==0)
            if (lo>>(h+1))==(hi>>(h+1)):
                c=(lo>>(h+1))<<(h+1); s.add(e==c+d*(1<<l)+r); a,b=(lo-c)>>l,(hi-c)>>l; s.add(d>=a,d<=b); return d,a,b
            g=s.newi(); s.add(e==g*(1<<(h+1))+d*(1<<l)+r,d>=0,d<H,g>=lo>>(h+1),g<=hi>>(h+1))
            lo,hi=s.tighti(t,d,0,H-1); return d,lo,hi
        if op in('add','sub'):
            x,y=s.int(t.a[0]),s.int(t.a[1])
            e=x[0]+y[0] if op=='add' else x[0]-y[0]; lo,hi=(x[1]+y[1],x[2]+y[2]) if op=='add' else (x[1]-y[2],x[2]-y[1])
            if lo>=0 and hi<H: return e,lo,hi
            if lo//H==hi//H: k=lo//H; return e-k*H,lo-k*H,hi-k*H
            d=s.newi(); k=s.newi(); s.add(e==d+k*H,d>=0,d<H,k>=lo//H,k<=hi//H); lo,hi=s.tighti(t,d,0,H-1); return d,lo,hi
        if op=='mul' and any(x.op=='c' for x in t.a):
            c,y=(t.a[0].p,s.int(t.a[1])) if t.a[0].op=='c' else (t.a[1].p,s.int(t.a[0]))
            e,lo,hi=y[0]*c,y[1]*c,y[2]*c
            if hi<H: return e,lo,hi
            d=s.newi(); k=s.newi(); s.add(e==d+k*H,d>=0,d<H,k>=0,k<=hi//H); lo,hi=s.tighti(t,d,0,H-1); return d,lo,hi
        if op=='xor' and t.a[1].op=='c' and t.a[1].p==H-1:
            e,lo,hi=s.int(t.a[0]); return (H-1)-e,H-1-hi,H-1-lo
        if op in('shl','lshr') and t.a[1].op!='c':
            k,a,b=s.int(t.a[1])
            if a==b: return s.int(tm.rebuild(t,[t.a[0],C(a,t.a[1].w)]))
        if op in('fptosi','fptoui'):
            n=s.fp(t.a[1]); rm=t.a[0].p; d=s.newi(); lo,hi=math.trunc(n.lo),math.trunc(n.hi)
            if not(-(H//2)<=lo and hi<H//2): raise Fail('conversion out of range')
            s.add(z3.Implies(n.e>=0,z3.And(z3.ToReal(d)<=n.e,z3.ToReal(d)+1>n.e)),z3.Implies(n.e<0,z3.And(z3.ToReal(d)>=n.e,z3.ToReal(d)-1<n.e)),d>=lo,d<=hi)
            if lo>=0: return d,lo,hi
            if hi<0: return d+H,lo+H,hi+H
            u=s.newi(); s.add(u==z3.If(d<0,d+H,d)); return u,0,H-1
        i=s.newi(); lo,hi=urange(t); s.add(i>=lo,i<=hi)
        s.stats['opaque']=s.stats.get('opaque',0)+1
        return i,lo,hi
    def entries(s,t):
        i=t.a[0]; one=tm.onemask(i); nz=tm.nzmask(i,6); lo,hi=urange(i)
        if i.op!='c':
            try: _,lo,hi=s.int(i)
            except Fail: pass
        return [v for k,v in enumerate(t.p) if lo<=k<=hi and k&one==one and k&~nz==0] or list(t.p)
    def splitbase(s,b):
        """a table index taken from the bits of a value that can only be one of two or three grid points: decide which"""
        while b.op not in tm.FPOPS:
            if b.op in('zext','sext','extract'): b=b.a[0]
            elif b.op in('add','concat','mul','bvor','shl','lshr','bvand') and any(x.op=='c' for x in b.a): b=[x for x in b.a if x.op!='c'][0]
            elif b.op in('fptosi','fptoui'): b=b.a[1]
            else: return
        n=s.fp(b)
        if n.q is None or n.q>10**5: return
        k=(n.hi-n.lo)/Q(2)**n.q
        if 0<k<=3:
            c=FCMP('fle',b,C(sf_bits(n.lo,n.w),n.w))
            if not s.decide(c): 
                if k>1:
                    c=FCMP('fle',b,C(sf_bits(n.lo+Q(2)**n.q,n.w),n.w)); s.decide(c)
    def splitidx(s,idx):
        """enumerate the values of a table index"""
        b=idx
        while True:
            if b.op in('zext','sext'): b=b.a[0]
            elif b.op in('add','concat','mul','bvor') and any(x.op=='c' for x in b.a): b=[x for x in b.a if x.op!='c'][0]
            else: break
        if b.op=='c': return
        e,lo,hi=s.int(b)
        if hi-lo>s.maxtab: raise Fail('table index range %d..%d'%(lo,hi))
        raise Split(('idx',b,lo,hi))
    # ---- conditions
    def decide(s,c):
        r=s.cmemo.get(c.id)
        if r is None: r=s.cmemo[c.id]=s._decide(c)
        return r
    def _decide(s,c):
        if c.id in s.asm: return s.asm[c.id]
        op=c.op
        if op=='c': return bool(c.p)
        if op=='not': return not s.decide(c.a[0])
        if op in('and','or'):
            sp=fl=None
            for x in c.a:
                try:
                    v=s.decide(x)
                    if v==(op=='or'): return v
                except Split as e: sp=sp or e
                except Fail as e: fl=fl or e
            if sp or fl: raise sp or fl
            return op=='and'
        if op=='ite': return s.decide(c.a[1] if s.decide(c.a[0]) else c.a[2])
        z=s.atom(c)
        if isinstance(z,bool): return z
        if s.proves(z): return True
        if s.proves(z3.Not(z)): return False
        raise Split(c)
    def fields(s,c):
        """tests on the exponent field, the magnitude bits or the sign bit of a floating-point value, as real comparisons"""
        for k in(0,1):
            x,y=c.a[k],c.a[1-k]
            if y.op!='c': continue
            while x.op=='zext' and x.a[0].w: x=x.a[0]
            if y.p>mask(x.w): return None
            if x.op!='extract' or not tm._natfp(x.a[0]): return None
            t=x.a[0]; w=t.w; mb=PREC[w]-1; h,l=x.p
            while t.op=='ite': t=t.a[1] if s.decide(t.a[0]) else t.a[2]
            if t.op=='c': return None
            o=s.outcome(t)
            if isinstance(o,str): raise Fail('field of '+o)
            if h==w-1==l:
                if c.op!='eq': return None
                if o.lo>0: return y.p==0
                if o.hi<0: return y.p==1
                b=z3.Bool('s%d'%t.id); s.add(z3.Implies(o.e<0,b),z3.Implies(o.e>0,z3.Not(b)))
                return b if y.p else z3.Not(b)
            if h!=w-2: return None
            ab=o.e if o.lo>=0 else -o.e if o.hi<=0 else z3.If(o.e>=0,o.e,-o.e); mx=o.mx(); mn=Q(0) if o.lo<=0<=o.hi else min(abs(o.lo),abs(o.hi))
            def lt(v):  # magnitude bits < v
                q=val(v,w) if v>>mb!=(mask(w-1)>>mb) and v<=mask(w-1) else None
                if q is None: return True if v>=((mask(w-1)>>mb)<<mb) else None
                if mx<q: return True
                if mn>=q: return False
                return ab<qv(q)
            if c.op=='ult': 
                if k==0: return lt(y.p<<l)
                r=lt((y.p+1)<<l); return r if r is None else (not r) if isinstance(r,bool) else z3.Not(r)
            a,b=lt((y.p+1)<<l),lt(y.p<<l)
            if a is None or b is None: return None
            if a is False or b is True: return False
            if a is True and b is False: return True
            return z3.And(a if not isinstance(a,bool) else z3.BoolVal(a),z3.Not(b) if not isinstance(b,bool) else z3.BoolVal(not b))
        return None
    def atom(s,c):
        op=c.op
        if op in('fisnan','fisinf'):
            o=s.outcome(c.a[0]); return o==('nan' if op=='fisnan' else 'inf') or (op=='fisinf' and o=='-inf')
        if op in('flt','fle','feq','fsame'):
            x,y=c.a
            for k,q in((0,y),(1,x)):
                p=c.a[1-k] if False else c.a[k]
            # infinite or NaN constants
            for k in(0,1):
                q=c.a[k]
                if q.op=='c' and val(q.p,q.w) is None:
                    o=s.fp(c.a[1-k]); nan=sf.is_nan(q.p,q.w)
                    if nan or op in('feq','fsame'): return False
                    pos=not q.p>>(q.w-1)
                    return (not pos) if k==0 else pos
            a,b=s.fp(x),s.fp(y)
            if op in('feq','fsame'):
                if a.hi<b.lo or b.hi<a.lo: return False
                if a.lo==a.hi==b.lo==b.hi and op=='feq': return True
                return a.e==b.e
            if op=='flt':
                if a.hi<b.lo: return True
                if a.lo>=b.hi: return False
                return a.e<b.e
            if a.hi<=b.lo: return True
            if a.lo>b.hi: return False
            return a.e<=b.e
        if op=='eq' and c.a[0].w==0: return s.decide(c.a[0])==s.decide(c.a[1])
        if op in('eq','ult'):
            z=s.fields(c)
            if z is not None: return z
        if op=='eq':
            a,b=s.int(c.a[0]),s.int(c.a[1])
            if a[2]<b[1] or b[2]<a[1]: return False
            if a[1]==a[2]==b[1]==b[2]: return True
            return a[0]==b[0]
        if op in('ult','slt'):
            a,b=s.int(c.a[0],op=='slt'),s.int(c.a[1],op=='slt')
            if a[2]<b[1]: return True
            if a[1]>=b[2]: return False
            return a[0]<b[0]
        raise Fail('condition '+op)
def sf_bits(q,w,up=False):
    """bits of the value truncated toward zero"""
    if q==0: return 0
    p=PREC[w]; s=q<0; q=abs(q); E=max(flog2(q),EMIN[w]+p-1); m=int(q/Q(2)**(E-p+1))
    b=(m-(1<<(p-1)))+((E+BIAS[w])<<(p-1)) if m>>(p-1) else m
    return b|((1<<(w-1)) if s else 0)
def bits_dn(q,w): return sf_bits(q,w)
def rdn(q,w):
    if q>=0: return val(sf_bits(q,w),w)
    return -rup(-q,w)
def rup(q,w):
    if q<=0: return -rdn(-q,w)
    v=val(sf_bits(q,w),w)
    if v==q: return v
    return val(sf_bits(q,w)+1,w)
def rne(q,w):
    if q<0: return -rne(-q,w)
    b=sf_bits(q,w); v,u=val(b,w),val(b+1,w)
    if v is not None and u is None and v!=q: return v if q-v<Q(2)**(EMAX[w]-PREC[w]-1) else None
    if u is None or v==q: return v if v==q else rup(q,w)
    d=q-v; h=(u-v)/2
    return v if d<h or (d==h and not b&1) else u
def nice(q,up):
    """a nearby rational with few bits"""
    if q==0: return q
    k=60-flog2(q); f=Q(2)**k; n=q*f
    return Q(math.ceil(n) if up else math.floor(n))/f
def atoms_inputs(c): return set(t.p for t in variables([c]))
def run(term,widths,region,claim,stats,rm=0,maxtab=None,budget=None,depth=0,log=None):
    """prove claim(ctx,instantiated roots) on every input of the region; returns list of failures (region, reason)"""
    import time
    stack=[(region,0)]; bad=[]
    while stack:
        reg,d=stack.pop()
        if budget and budget()<5: bad.append((reg,'out of time')); break
        stats['regions']=stats.get('regions',0)+1
        try:
            cx=Ctx(reg,widths,term,stats,rm=rm,maxtab=maxtab)
            empty=False
            for p in cx.pend:
                z=None
                try: z=cx.atom(p) if p.op!='not' else cx.atom(p.a[0])
                except (Fail,Split): z=None
                if isinstance(z,bool): empty|=z!=(p.op!='not')
                elif z is not None:
                    z=z if p.op!='not' else z3.Not(z); cx.add(z); empty|=cx.proves(z3.Not(z))
            if empty: continue  # no input of the region satisfies the assumed outcomes
            r=claim(cx,cx.roots)
            if r is not True: bad.append((reg,r or 'claim not proved'))
        except Split as e:
            if d>200: bad.append((reg,'too many splits')); continue
            subs=split(cx,reg,e.atom)
            if log: log('split %s on %s -> %d'%(reg.ins,show(e.atom,3) if not isinstance(e.atom,tuple) else e.atom[0],len(subs)))
            stack+=[(x,d+1) for x in subs]
        except Fail as e:
            bad.append((reg,'%s: %s'%(type(e).__name__,e)))
    return bad
def split(cx,reg,atom):
    if isinstance(atom,tuple):
        _,b,lo,hi=atom
        return [Region(reg.ins,reg.assume+((uninst(cx,EQ(b,C(v,b.w))),True),),reg.seen) for v in range(lo,hi+1)]
    vs=variables([atom]); u=uninst(cx,atom); R=lambda l,h,seen=reg.seen: Region({**reg.ins,nm:(sg,l,h)},reg.assume,seen)
    both=[Region(reg.ins,reg.assume+((u,True),),reg.seen),Region(reg.ins,reg.assume+((u,False),),reg.seen)]
    if len(vs)==1 and vs[0].id in cx.M:
        nm,sg,a,b,w=cx.M[vs[0].id]; o=postorder([atom]); isfp=any(x.op in tm.FPOPS for x in o)
        f=lambda v: evaluate([atom],{vs[0].p:v},order=o)[0]
        # a point where the condition differs from its value at the low end, then bisection to the first change
        fa=f(a); other=None
        if f(b)!=fa: other=b
        else:
            for e in cx.envs(): 
                if f(e[vs[0].p])!=fa: other=e[vs[0].p]; break
            if other is None and not isfp: other=model(atom if not fa else NOT(atom),vs[0],a,b)
        if isfp and u.id in reg.seen: return both
        if other is not None and other!='unsat':
            l,h=a,other
            while h-l>1:
                m=(l+h)//2
                if f(m)==fa: l=m
                else: h=m
            if isfp:
                # rounding blurs the threshold: a narrow band around it is decided under both outcomes
                d=max(16,(b-a)>>12); l,h=max(a,l-d),min(b,h+d); sn=reg.seen|{u.id}
                return ([R(a,l-1)] if l>a else [])+[R(l,h,sn)]+([R(h+1,b)] if h<b else [])
            return [R(a,l),R(h,b)]
        if other=='unsat':
            return [Region(reg.ins,reg.assume+((u,bool(fa)),),reg.seen)]
        if isfp or b-a<1024: return both
        m=mid(a,b,w)
        return [R(a,m),R(m+1,b)]
    return both
def uninst(cx,t):
    """back to the original input variables"""
    m={}
    for nm,(mm,sg,a,b,w) in cx.names.items():
        if mm.op!='c': m[mm.id]=EXTRACT(V(nm,w),w-2,0)
    return tm.substitute([t],m)[0]
def model(c,v,a,b):
    import smt
    r=smt.solve([c,NOT(mk('ult',(v,C(a,v.w)),0)),NOT(mk('ult',(C(b,v.w),v),0))],[v],timeout=20)
    return r.model.get(v.p,0) if r.status=='sat' else 'unsat' if r.status=='unsat' else None
def mid(a,b,w):
    """magnitude bits halfway between a and b, by value when they are within a factor 4, otherwise by exponent"""
    x,y=val(a,w),val(b,w)
    if y<=4*x: m=sf_bits((x+y)/2,w)
    else: m=(a+b)//2
    return min(max(m,a),b-1)
def prove(term,widths,region,claim,stats,rm=0,depth=30,tabdepth=None,budget=None,maxfail=3,minwidth=1):
    """run(); regions where the claim is not proved are bisected (first input that is not a point), up to `depth` times"""
    todo=[(region,0)]; bad=[]
    while todo:
        reg,d=todo.pop()
        f=run(term,widths,reg,claim,stats,rm=rm,maxtab=256 if tabdepth is not None and d>=tabdepth else None,budget=budget)
        for rg,why in f:
            if budget and budget()<5: bad.append((rg,why)); continue
            cand=[(nm,v) for nm,v in rg.ins.items() if v[2]-v[1]>=minwidth]
            if d>=depth or not cand: bad.append((rg,why)); continue
            nm,(sg,a,b)=max(cand,key=lambda q:q[1][2]-q[1][1]); m=mid(a,b,widths[nm])
            # undo decisions that came from the wider region
            todo+=[(Region({**rg.ins,nm:(sg,a,m)},rg.assume,rg.seen),d+1),(Region({**rg.ins,nm:(sg,m+1,b)},rg.assume,rg.seen),d+1)]
        if len(bad)>=maxfail: break
    return bad
