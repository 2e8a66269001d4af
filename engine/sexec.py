"""Symbolic execution of parsed LLVM IR over the terms of terms.py.

Every path of the function is followed (states are merged at join points); loops are unwound until z3 shows that no
input can take another iteration, or until `unwind` iterations, where an obligation is recorded."""
import re,sys,os
sys.setrecursionlimit(100000)
from terms import *
import terms as tm
import ir as irm, spec
class Unsup(Exception): pass
class Ptr:
    __slots__=('obj','off','sy')
    def __init__(s,obj,off=0,sy=()): s.obj=obj; s.off=off; s.sy=sy
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj==o.obj and s.off==o.off and len(s.sy)==len(o.sy) and all(a==c and b is d for (a,b),(c,d) in zip(s.sy,o.sy))
    def __hash__(s): return hash((s.obj,s.off))
    def __repr__(s): return 'Ptr(%r,%d,%r)'%(s.obj,s.off,s.sy)
class PIte:
    __slots__=('c','a','b')
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b
NULL=Ptr(None)
def vite(c,a,b):
    if a is b: return a
    if isinstance(a,T) and isinstance(b,T): return ITE(c,a,b)
    if isinstance(a,tuple) and isinstance(b,tuple): return tuple(vite(c,x,y) for x,y in zip(a,b))
    if isinstance(a,(Ptr,PIte)) and isinstance(b,(Ptr,PIte)):
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a==b: return a
            # same shape, different symbolic index
            if a.obj==b.obj and a.off==b.off and len(a.sy)==len(b.sy)==1 and a.sy[0][0]==b.sy[0][0]:
                return Ptr(a.obj,a.off,((a.sy[0][0],ITE(c,a.sy[0][1],b.sy[0][1])),))
        if c is TRUE: return a
        if c is FALSE: return b
        return PIte(c,a,b)
    raise Unsup('merge of %r and %r'%(type(a),type(b)))
class State:
    __slots__=('g','regs','mem','rm','errno')
    def __init__(s,g,regs,mem,rm,errno): s.g=g; s.regs=regs; s.mem=mem; s.rm=rm; s.errno=errno
    def fork(s,g): return State(g,dict(s.regs),dict(s.mem),s.rm,s.errno)
def strip(g1,g2):
    """g1 = common & d1, g2 = common & d2 -> d1"""
    c1,c2=conj(g1),conj(g2)
    s1=set(x.id for x in c1); s2=set(x.id for x in c2)
    d1=[x for x in c1 if x.id not in s2]; d2=[x for x in c2 if x.id not in s1]
    # a single literal that separates the two paths is enough
    n2=set(NOT(x).id for x in d2)
    for x in d1:
        if x.id in n2: return x
    if len(d2)==1: return NOT(d2[0])
    if not d1: return NOT(AND(*d2))
    return AND(*d1)
def merge(a,b,live):
    c=strip(a.g,b.g)
    regs={}
    for k in live:
        x=a.regs.get(k); y=b.regs.get(k)
        if x is None or y is None: continue
        regs[k]=x if x is y else vite(c,x,y)
    mem={}
    for o in a.mem:
        if o not in b.mem: continue
        x,y=a.mem[o],b.mem[o]
        mem[o]=x if x is y else mergecells(c,x,y)
    rm=ITE(c,a.rm,b.rm); er=ITE(c,a.errno,b.errno)
    return State(OR(a.g,b.g),regs,mem,rm,er)
def mergecells(c,x,y):
    out={}
    if set((o,v[0]) for o,v in x.items())!=set((o,v[0]) for o,v in y.items()):
        # different layouts: refine both to the common refinement; uninitialised parts stay fresh
        x,y=dict(x),dict(y)
        offs=sorted(set([o for o in x]+[o+v[0] for o,v in x.items()]+[o for o in y]+[o+v[0] for o,v in y.items()]))
        x=refine(x,offs); y=refine(y,offs)
        for o in set(x)|set(y):
            if o not in x or o not in y:
                (sz,v)=(x.get(o) or y.get(o))
                if isinstance(v,T):
                    u=(sz,fresh(v.w,'uninit'))
                    if o not in x: x[o]=u
                    else: y[o]=u
                else:
                    # pointer on one side only, never written on the other
                    out[o]=(sz,v)
    for o in x:
        if o in out: continue
        (sa,va),(sb,vb)=x[o],y[o]
        if sa!=sb: raise Unsup('cells')
        out[o]=(sa,va if va is vb else vite(c,va,vb))
    return out
def refine(cells,offs):
    out={}
    for o,(sz,v) in cells.items():
        cuts=[q for q in offs if o<q<o+sz]
        if not cuts: out[o]=(sz,v); continue
        if not isinstance(v,T): raise Unsup('split pointer cell')
        b=[o]+cuts+[o+sz]
        for i in range(len(b)-1):
            out[b[i]]=(b[i+1]-b[i],EXTRACT(v,8*(b[i+1]-o)-1,8*(b[i]-o)))
    return out
FPRED={'oeq':('feq',0),'ogt':('flt',1),'oge':('fle',1),'olt':('flt',0),'ole':('fle',0)}
class Exec:
    def __init__(s,prog,rm=RNE,unwind=300,hooks=None,inc=None,prune=False,maxdepth=200,lazy=1,maxrec=2):
        s.maxrec=maxrec
        s.lazy=lazy
        s.p=prog; s.m=prog.m; s.oblig=[]; s.nobj=0; s.hooks=hooks or {}; s.rm=rm; s.unwind=unwind; s.inc=inc; s.prune=prune
        s.sizes={}; s.const=set(); s.gobj={}; s.initmem={}; s.cfg={}; s.fnused=set(); s.depth=0; s.externs=set(); s.assumes=[]; s.maxdepth=maxdepth
        s.trapname=('llvm.ubsantrap','llvm.trap'); s.stack=[]; s.steps=0
    # ---- objects
    def newobj(s,size,name):
        s.nobj+=1; o='%s#%d'%(name,s.nobj); s.sizes[o]=size; return o
    def alloc(s,st,size,name='buf',cells=None):
        o=s.newobj(size,name); st.mem[o]=cells or {}; return Ptr(o)
    def glob(s,st,name):
        if name in s.m.aliases:
            return s.cval(st,s.m.aliases[name])
        if name in s.m.fns: return Ptr(('fn',name))
        if name not in s.gobj:
            t,init,const=s.m.globals[name]
            o='@'+name; s.sizes[o]=s.p.size(t); s.gobj[name]=o
            cells={}
            if init is not None: s.fill(st,cells,0,t,init)
            s.initmem[o]=cells
            if const: s.const.add(o)
        o=s.gobj[name]
        if o not in s.const and o not in st.mem: st.mem[o]=s.initmem[o]
        return Ptr(o)
    def fill(s,st,cells,off,t,c):
        t=s.p.res(t)
        if t.k in('arr','vec'):
            es=s.p.size(t.el)
            if c[0] in('zero','undef','poison'):
                for i in range(t.n): s.fill(st,cells,off+i*es,t.el,c)
            else:
                for i,e in enumerate(c[1]): s.fill(st,cells,off+i*es,t.el,e)
        elif t.k=='struct':
            offs,_=s.p.layout(t)
            for i,e in enumerate(t.els): s.fill(st,cells,off+offs[i],e,c if c[0] in('zero','undef','poison') else c[1][i])
        elif t.k=='ptr': cells[off]=(8,s.cval(st,c,t))
        else:
            v=s.cval(st,c,t); n=s.p.size(t) if t.k!='fp' or t.n!=80 else 10
            if isinstance(v,T):
                if v.w!=8*n: v=s.toint(v,8*n)
            cells[off]=(n,v)
    def toint(s,v,w):
        if v.w==0: return ZEXT(ITE(v,C(1,1),C(0,1)),w)
        return ZEXT(v,w) if v.w<w else v
    # ---- constants and operands
    def zero(s,t):
        t=s.p.res(t)
        if t.k=='int': return FALSE if t.n==1 else C(0,t.n)
        if t.k=='fp': return C(0,t.n)
        if t.k=='ptr': return NULL
        if t.k in('arr','vec'): return tuple(s.zero(t.el) for _ in range(t.n))
        if t.k=='struct': return tuple(s.zero(e) for e in t.els)
        raise Unsup('zero '+repr(t))
    def undef(s,t):
        t=s.p.res(t)
        if t.k=='int': return fresh(0 if t.n==1 else t.n,'undef')
        if t.k=='fp': return fresh(t.n,'undef')
        if t.k=='ptr': return NULL
        if t.k in('arr','vec'): return tuple(s.undef(t.el) for _ in range(t.n))
        if t.k=='struct': return tuple(s.undef(e) for e in t.els)
        raise Unsup('undef '+repr(t))
    def cval(s,st,c,t=None):
        k=c[0]
        if k=='reg': return st.regs[c[1]]
        if k=='int':
            t=s.p.res(t)
            return B(c[1]) if t.n==1 else C(c[1],t.n)
        if k=='fp': return C(c[1],c[2])
        if k=='glo': return s.glob(st,c[1])
        if k=='null': return NULL
        if k=='zero': return s.zero(t)
        if k in('undef','poison'): return s.undef(t)
        if k=='agg':
            t=s.p.res(t)
            if t.k in('arr','vec'): return tuple(s.cval(st,e,t.el) for e in c[1])
            return tuple(s.cval(st,e,x) for e,x in zip(c[1],t.els))
        if k=='gep': return s.gep(st,c[1],[(tt,s.cval(st,v,tt)) for tt,v in c[2]])
        if k=='cast':
            v=s.cval(st,c[3],c[2]); return s.cast(c[1],v,c[2],c[4],st)
        if k=='cbin': return s.bin(c[1],s.cval(st,c[3],c[2]),s.cval(st,c[4],c[2]),st)
        raise Unsup('const '+k)
    def gep(s,st,bt,ops):
        p=ops[0][1]
        if isinstance(p,PIte):
            return PIte(p.c,s.gep(st,bt,[(ops[0][0],p.a)]+ops[1:]),s.gep(st,bt,[(ops[0][0],p.b)]+ops[1:]))
        if not isinstance(p,Ptr): raise Unsup('gep base')
        off=p.off; sy=list(p.sy); t=bt
        def add(scale,idx):
            nonlocal off
            i=idx
            if i.w<64: i=SEXT(i,64)
            if i.op=='c': off+=scale*sgn(i.p,64)
            else:
                if i.op=='add' and i.a[1].op=='c':
                    # only when no wrap-around can matter (gep arithmetic wraps modulo 2^64 as well)
                    off+=scale*sgn(i.a[1].p,64); i=i.a[0]
                sy.append((scale,i))
        first=True
        for ty,v in ops[1:]:
            if first: add(s.p.size(t),v); first=False; continue
            t=s.p.res(t)
            if t.k=='struct':
                offs,_=s.p.layout(t); i=v.p; off+=offs[i]; t=t.els[i]
            else: add(s.p.size(t.el),v); t=t.el
        return Ptr(p.obj,off,tuple(sy))
    # ---- memory
    def cells(s,st,o):
        if o in s.const: return s.initmem[o]
        return st.mem[o]
    def ob(s,st,bad,kind,what=''):
        g=AND(st.g,bad)
        if g is not FALSE: s.oblig.append((g,kind,what,s.stack[-1] if s.stack else ''))
    def rd(s,st,o,off,n):
        """n bytes at a constant offset: a term of width 8n or a pointer"""
        cells=s.cells(st,o)
        c=cells.get(off)
        if c and c[0]==n: return c[1]
        parts=[]; i=off
        while i<off+n:
            hit=None
            c=cells.get(i)
            if c: hit=(i,c)
            else:
                for q in range(i-1,max(-1,i-33),-1):
                    c=cells.get(q)
                    if c:
                        if q+c[0]>i: hit=(q,c)
                        break
            if hit is None:
                parts.append(fresh(8,'uninit')); i+=1; continue
            q,(sz,v)=hit
            if not isinstance(v,T):
                if v==NULL: v=C(0,64)
                else: raise Unsup('partial pointer load')
            e=min(q+sz,off+n); parts.append(EXTRACT(v,8*(e-q)-1,8*(i-q))); i=e
        r=parts[0]
        for x in parts[1:]: r=CONCAT(x,r)
        return r
    def wr(s,st,o,off,n,v):
        cells=dict(st.mem[o])
        c=cells.get(off)
        if not(c and c[0]==n):
            for q in list(cells):
                sz,x=cells[q]
                if q<off+n and off<q+sz:
                    del cells[q]
                    if q<off: cells[q]=(off-q,EXTRACT(x,8*(off-q)-1,0))
                    if q+sz>off+n: cells[off+n]=(q+sz-off-n,EXTRACT(x,8*sz-1,8*(off+n-q)))
        cells[off]=(n,v); st.mem[o]=cells
    def index(s,p):
        """symbolic pointer -> (scale, idx, offset) with a single non-negative index"""
        if len(p.sy)==1: return p.sy[0][0],p.sy[0][1],p.off
        # combine to a common scale
        import math
        g=0
        for sc,_ in p.sy: g=math.gcd(g,abs(sc))
        acc=C(0,64)
        for sc,i in p.sy: acc=ADD(acc,MUL(i,C(sc//g,64)))
        return g,acc,p.off
    def cands(s,st,p,n,what):
        sc,idx,off=s.index(p); size=s.sizes[p.obj]
        if sc<0: sc=-sc; idx=NEG(idx)
        kmin=-(off//sc) if off<0 else -(off//sc)
        kmin=max(kmin,-(off//sc)); kmax=(size-n-off)//sc
        # indices are offset so that they start at 0
        if kmin!=0: idx=ADD(idx,C(-kmin,64)); off=off+kmin*sc; kmax-=kmin; kmin=0
        if off<0: raise Unsup('misaligned symbolic access')
        if kmax<0: s.ob(st,TRUE,'oob',what); return sc,idx,off,[]
        lo,hi=urange(idx)
        if hi>kmax: s.ob(st,UGT(idx,C(kmax,64)),'oob',what)
        ks=list(range(lo,min(hi,kmax)+1))
        return sc,idx,off,ks
    def load(s,st,p,t):
        t=s.p.res(t)
        if isinstance(p,PIte):
            return vite(p.c,s.load(st,p.a,t),s.load(st,p.b,t))
        if t.k=='struct':
            offs,_=s.p.layout(t); return tuple(s.load(st,Ptr(p.obj,p.off+o,p.sy),e) for o,e in zip(offs,t.els))
        if t.k=='arr' or (t.k=='vec' and not(t.el.k=='int' and t.el.n<8)):
            es=s.p.size(t.el); return tuple(s.load(st,Ptr(p.obj,p.off+i*es,p.sy),t.el) for i in range(t.n))
        n=10 if t.k=='fp' and t.n==80 else s.p.size(t)
        if p.obj is None or isinstance(p.obj,tuple): s.ob(st,TRUE,'null load'); return s.undef(t)
        if p.obj=='errno': return st.errno
        if not p.sy:
            if p.off<0 or p.off+n>s.sizes[p.obj]: s.ob(st,TRUE,'oob','load'); return s.undef(t)
            v=s.rd(st,p.obj,p.off,n)
        else:
            sc,idx,off,ks=s.cands(st,p,n,'load')
            if not ks: return s.undef(t)
            vals=[s.rd(st,p.obj,off+sc*k,n) for k in ks]
            if all(isinstance(v,T) and v.op=='c' for v in vals):
                full=[vals[0].p]*ks[0]+[v.p for v in vals]
                kb=max(1,(len(full)-1).bit_length())
                ix=EXTRACT(idx,kb-1,0) if len(full)==1<<kb or True else idx
                v=TAB(full,ix,vals[0].w)
            else:
                v=vals[-1]
                for k,x in list(zip(ks,vals))[-2::-1]: v=vite(EQ(idx,C(k,64)),x,v)
        return s.fromcell(v,t)
    def fromcell(s,v,t):
        if t.k=='ptr':
            if isinstance(v,T):
                if v.op=='c' and v.p==0: return NULL
                return Ptr(('int',v))
            return v
        if not isinstance(v,T):
            if v==NULL: v=C(0,64)
            else: return v
        if t.k=='int':
            if t.n==1: return EQ(EXTRACT(v,0,0),C(1,1))
            if t.n<v.w: return EXTRACT(v,t.n-1,0)
        if t.k=='vec': raise Unsup('vector of bits in memory')
        return v
    def store(s,st,p,v,t):
        t=s.p.res(t)
        if isinstance(p,PIte):
            # store under a condition on either side
            a=s.flat(p)
            for c,q in a:
                old=s.load(st,q,t); s.store(st,q,vite(c,v,old),t)
            return
        if t.k=='struct':
            offs,_=s.p.layout(t)
            for o,e,x in zip(offs,t.els,v): s.store(st,Ptr(p.obj,p.off+o,p.sy),x,e)
            return
        if t.k in('arr','vec'):
            es=s.p.size(t.el)
            for i in range(t.n): s.store(st,Ptr(p.obj,p.off+i*es,p.sy),v[i],t.el)
            return
        n=10 if t.k=='fp' and t.n==80 else s.p.size(t)
        if p.obj is None or isinstance(p.obj,tuple): s.ob(st,TRUE,'null store'); return
        if p.obj=='errno': st.errno=v; return
        if isinstance(v,T): v=s.toint(v,8*n)
        if p.obj in s.const: s.ob(st,TRUE,'store to constant'); return
        if not p.sy:
            if p.off<0 or p.off+n>s.sizes[p.obj]: s.ob(st,TRUE,'oob','store'); return
            s.wr(st,p.obj,p.off,n,v)
        else:
            sc,idx,off,ks=s.cands(st,p,n,'store')
            for k in ks:
                old=s.rd(st,p.obj,off+sc*k,n)
                s.wr(st,p.obj,off+sc*k,n,vite(EQ(idx,C(k,64)),v,old))
    def flat(s,p,c=TRUE):
        if isinstance(p,PIte): return s.flat(p.a,AND(c,p.c))+s.flat(p.b,AND(c,NOT(p.c)))
        return [(c,p)]
    def copy(s,st,d,sr,n):
        if not isinstance(n,T) or n.op!='c': raise Unsup('memcpy length')
        n=n.p
        if isinstance(sr,PIte) or isinstance(d,PIte) or sr.sy or d.sy:
            t=irm.Ty('int',8)
            tmp=[s.load(st,s.padd(sr,i),t) for i in range(n)]
            for i,x in enumerate(tmp): s.store(st,s.padd(d,i),x,t)
            return
        if n==0: return
        if sr.off<0 or sr.off+n>s.sizes[sr.obj] or d.off<0 or d.off+n>s.sizes[d.obj]: s.ob(st,TRUE,'oob','memcpy'); return
        src=s.cells(st,sr.obj); got=[]
        for o,(sz,v) in src.items():
            if o>=sr.off and o+sz<=sr.off+n: got.append((o,sz,v))
            elif o<sr.off+n and o+sz>sr.off:
                a=max(o,sr.off); e=min(o+sz,sr.off+n)
                got.append((a,e-a,EXTRACT(v,8*(e-o)-1,8*(a-o))))
        for o,sz,v in got: s.wr(st,d.obj,d.off+o-sr.off,sz,v)
    def padd(s,p,i):
        if isinstance(p,PIte): return PIte(p.c,s.padd(p.a,i),s.padd(p.b,i))
        return Ptr(p.obj,p.off+i,p.sy)
    # ---- scalar operations
    def bin(s,op,a,b,st):
        if isinstance(a,tuple): return tuple(s.bin(op,x,y,st) for x,y in zip(a,b))
        if not isinstance(a,T) or not isinstance(b,T):
            if op=='sub' and isinstance(a,PI) and isinstance(b,PI) and a.p.obj==b.p.obj:
                return SUB(s.poff(a.p),s.poff(b.p))
            if isinstance(a,PI) and isinstance(b,T) and op in('add','sub'):
                return PI(Ptr(a.p.obj,a.p.off,a.p.sy+((1,b if op=='add' else NEG(b)),)))
            raise Unsup('arithmetic on pointer '+op)
        if op[0]=='f' and op in('fadd','fsub','fmul','fdiv'):
            if op=='fmul' and not PLAIN and (a.op=='c')!=(b.op=='c') and a.w in(32,64,80):
                r=s.scale2(b if a.op=='c' else a,a if a.op=='c' else b,st)
                if r is not None: return r
            if op=='fmul' and not PLAIN and a.w in(32,64) and not(a.op=='c' and b.op=='c'):
                for x,y in((a,b),(b,a)):
                    r=s.pow2mul(x,y,st)
                    if r is not None: return r
            return FOP(op,st.rm,a,b)
        if op=='frem':
            s.externs.add('fmod'); return UF('fmod',(a,b),a.w)
        if a.w==0:
            if op in('add','sub','xor'): return XORB(a,b)
            if op in('and','mul'): return AND(a,b)
            if op=='or': return OR(a,b)
            if op in('shl','lshr','udiv'): return AND(a,NOT(b)) if op!='udiv' else a
            if op=='ashr': return a
            raise Unsup('i1 '+op)
        return {'add':ADD,'sub':SUB,'mul':MUL,'udiv':UDIV,'urem':UREM,'sdiv':SDIV,'srem':SREM,'and':BAND,'or':BOR,'xor':XOR,'shl':SHL,'lshr':LSHR,'ashr':ASHR}[op](a,b)
    def empty(s,g):
        """the conjuncts of g bound some term by an empty interval"""
        sb={}; ub={}; ex={}; st=list(conj(g))
        while st:
            x=st.pop()
            ng=x.op=='not'; y=x.a[0] if ng else x
            if y.op=='or' and ng: st+=[NOT(q) for q in y.a]; continue
            if y.op=='and' and not ng: st+=list(y.a); continue
            if y.op=='eq' and y.a[0].w:
                a,b=y.a
                if a.op!='c': a,b=b,a
                if a.op=='c' and b.op!='c':
                    if ng: ex.setdefault(b,set()).add(a.p)
                    else:
                        if a.p in ex.get(b,()): return True
                continue
            if y.op not in('slt','ult') or y.a[0].w==0: continue
            a,b=y.a; d=sb if y.op=='slt' else ub; w=a.w
            if a.op=='c' and b.op!='c': t=b; c=sgn(a.p,w) if y.op=='slt' else a.p; lo,hi=(None,c) if ng else (c+1,None)
            elif b.op=='c' and a.op!='c': t=a; c=sgn(b.p,w) if y.op=='slt' else b.p; lo,hi=(c,None) if ng else (None,c-1)
            else: continue
            e=d.setdefault(t,[None,None])
            if lo is not None and (e[0] is None or lo>e[0]): e[0]=lo
            if hi is not None and (e[1] is None or hi<e[1]): e[1]=hi
            if e[0] is not None and e[1] is not None and e[0]>e[1]: return True
        for t,xs in ex.items():
            w=t.w
            for d,full in((sb,srange),(ub,urange)):
                lo,hi=full(t); e=d.get(t,(None,None))
                if e[0] is not None: lo=max(lo,e[0])
                if e[1] is not None: hi=min(hi,e[1])
                if lo>hi: return True
                if hi-lo<len(xs) and all((v&mask(w)) in xs for v in range(lo,hi+1)): return True
        return False
    def known(s,st,c):
        if c.op=='c': return bool(c.p)
        n=NOT(c)
        for x in conj(st.g)[-200:]:
            if x is c: return True
            if x is n: return False
        return None
    def pow2mul(s,x,y,st):
        """x*y where the significand of y is syntactically that of a power of two: scaling by its exponent"""
        w=y.w; eb,mb=emb(w)
        if EXTRACT(y,mb-1,0) is not C(0,mb): return None
        e=expo(y); bias=(1<<(eb-1))-1
        if e.op=='c' and e.p in(0,mask(eb)): return None
        xx=XOR(x,CONCAT(sign_of(y),C(0,w-1)))
        r=spec.scale(xx,SUB(ZEXT(e,22),C(bias,22)),st.rm)
        r=ITE(FNAN(x),BOR(x,C(1<<(mb-1),w)),r)
        if e.op=='c': return r
        inf=EQ(e,C(-1,eb)); zero=EQ(e,C(0,eb))
        kz=s.known(st,zero); ki=s.known(st,inf)
        if kz is not False: r=ITE(zero,ITE(OR(FNAN(x),FINF(x)),ITE(FNAN(x),BOR(x,C(1<<(mb-1),w)),C((mask(eb)<<mb)|(1<<(mb-1)),w)),CONCAT(sign_of(xx),C(0,w-1))),r)
        if ki is not False: r=ITE(inf,FOP('fmul',st.rm,x,y),r)
        return r
    def scale2(s,x,c,st):
        """x * 2^k (k>0), exact unless it overflows: written on the bits"""
        if x.w==80:
            if c.p&mask(79)!=(0x4000<<64)|(1<<63): return None
            sg=XOR(sign_of(x),C(c.p>>79,1)); ex=expo(x); m=EXTRACT(x,63,0)
            z=EQ(ex,C(0,15)); kz=s.known(st,z); m2=SHL(m,C(1,64))
            sub=CONCAT(sg,CONCAT(ZEXT(EXTRACT(m2,63,63),15),m2))
            if kz is True: return sub
            neg=EQ(sg,C(1,1)); inf=C((0x7fff<<64)|(1<<63),79); mx=C((0x7ffe<<64)|mask(64),79)
            big=ITE(OR(EQ(st.rm,RNE),AND(EQ(st.rm,RTN),neg),AND(EQ(st.rm,RTP),NOT(neg))),inf,mx)
            nan=AND(EQ(ex,C(-1,15)),NE(EXTRACT(m,62,0),C(0,63)))
            nrm=CONCAT(sg,ITE(EQ(ex,C(-1,15)),CONCAT(ex,ITE(nan,BOR(m,C(3<<62,64)),m)),ITE(EQ(ex,C(0x7ffe,15)),big,CONCAT(ADD(ex,C(1,15)),m))))
            return nrm if kz is False else ITE(z,sub,nrm)
        eb,mb=emb(x.w); e=(c.p>>mb)&mask(eb); k=e-(mask(eb)>>1)
        if c.p&mask(mb) or e==0 or e==mask(eb) or k<=0: return None
        if k>1 and not isc(st.rm): return None
        sg=XOR(sign_of(x),C(c.p>>(x.w-1),1)); ex=expo(x); m=mant(x)
        z=EQ(ex,C(0,eb)); kz=s.known(st,z)
        if k==1: sub=CONCAT(sg,SHL(ZEXT(m,x.w-1),C(1,x.w-1)))
        else:
            lz=CLZ(m); sh=ADD(lz,C(1,mb))  # shift that makes the leading bit implicit
            low=UGT(sh,C(min(k,mask(mb)),mb)) # stays subnormal
            if k>mb: low=EQ(m,C(0,mb))
            norm=CONCAT(SUB(C((k+1)&mask(eb),eb),EXTRACT(ZEXT(sh,64),eb-1,0)),SHL(m,sh))
            lowv=ZEXT(SHL(m,C(min(k,mb),mb)),x.w-1)
            sub=CONCAT(sg,ITE(EQ(m,C(0,mb)),C(0,x.w-1),ITE(low,lowv,norm)))
        if kz is True: return sub
        sp=EQ(ex,C(-1,eb)); q=CONCAT(ex,ITE(EQ(m,C(0,mb)),m,BOR(m,C(1<<(mb-1),mb))))
        ov=UGE(ex,C(mask(eb)-k,eb)) if k<mask(eb) else TRUE
        neg=EQ(sg,C(1,1)); inf=C(mask(eb)<<mb,x.w-1); mx=C((mask(eb)<<mb)-1,x.w-1)
        big=ITE(OR(EQ(st.rm,RNE),AND(EQ(st.rm,RTN),neg),AND(EQ(st.rm,RTP),NOT(neg))),inf,mx)
        nrm=CONCAT(sg,ITE(sp,q,ITE(ov,big,CONCAT(ADD(ex,C(k,eb)),m))))
        return nrm if kz is False else ITE(z,sub,nrm)
    def poff(s,p):
        r=C(p.off,64)
        for sc,i in p.sy: r=ADD(r,MUL(i,C(sc,64)))
        return r
    def icmp(s,pred,a,b,st):
        if isinstance(a,tuple): return tuple(s.icmp(pred,x,y,st) for x,y in zip(a,b))
        if isinstance(a,PI): a=a.p
        if isinstance(b,PI): b=b.p
        if not isinstance(a,T) or not isinstance(b,T):
            if isinstance(a,PIte): return ITE(a.c,s.icmp(pred,a.a,b,st),s.icmp(pred,a.b,b,st))
            if isinstance(b,PIte): return ITE(b.c,s.icmp(pred,a,b.a,st),s.icmp(pred,a,b.b,st))
            if isinstance(a,T) and a.op=='c' and a.p==0: a=NULL
            if isinstance(b,T) and b.op=='c' and b.p==0: b=NULL
            if a.obj!=b.obj:
                if pred in('eq','ne') : return B(pred=='ne')
                raise Unsup('pointer order')
            a,b=s.poff(a),s.poff(b)
        if a.w==0:
            if pred=='eq': return EQ(a,b)
            if pred=='ne': return NE(a,b)
            a,b=ITE(a,C(1,1),C(0,1)),ITE(b,C(1,1),C(0,1))
        return {'eq':EQ,'ne':NE,'ult':ULT,'ule':ULE,'ugt':UGT,'uge':UGE,'slt':SLT,'sle':SLE,'sgt':SGT,'sge':SGE}[pred](a,b)
    def fcmp(s,pred,a,b):
        if isinstance(a,tuple): return tuple(s.fcmp(pred,x,y) for x,y in zip(a,b))
        if pred in('true','false'): return B(pred=='true')
        if pred in FPRED:
            op,sw=FPRED[pred]; return FCMP(op,b,a) if sw else FCMP(op,a,b)
        if pred=='ord': return AND(NOT(FNAN(a)),NOT(FNAN(b)))
        if pred=='uno': return OR(FNAN(a),FNAN(b))
        if pred=='one': return OR(FCMP('flt',a,b),FCMP('flt',b,a))
        if pred=='ueq': return NOT(OR(FCMP('flt',a,b),FCMP('flt',b,a)))
        inv={'une':'oeq','ult':'oge','ule':'ogt','ugt':'ole','uge':'olt'}[pred]
        return NOT(s.fcmp(inv,a,b))
    def bits(s,v):
        """any first-class value -> one bit-vector"""
        if isinstance(v,tuple):
            r=None
            for x in v:
                x=s.bits(x); r=x if r is None else CONCAT(x,r)
            return r
        if v.w==0: return ITE(v,C(1,1),C(0,1))
        return v
    def frombits(s,v,t):
        t=s.p.res(t)
        if t.k=='vec':
            ew=t.el.n; return tuple(s.frombits(EXTRACT(v,ew*(i+1)-1,ew*i),t.el) for i in range(t.n))
        if t.k=='int' and t.n==1: return EQ(v,C(1,1))
        return v
    def cast(s,op,v,t0,t1,st):
        t0,t1=s.p.res(t0),s.p.res(t1)
        if op=='bitcast':
            if t0.k=='ptr' or t1.k=='ptr': return v
            return s.frombits(s.bits(v),t1)
        if isinstance(v,tuple): return tuple(s.cast(op,x,t0.el,t1.el,st) for x in v)
        if op=='ptrtoint': return PI(v) if isinstance(v,(Ptr,)) and v!=NULL else C(0,t1.n) if v==NULL else v
        if op=='inttoptr': return v.p if isinstance(v,PI) else NULL if isinstance(v,T) and v.op=='c' and v.p==0 else Ptr(('int',v))
        w=t1.n
        if op=='trunc': return EQ(EXTRACT(v,0,0),C(1,1)) if w==1 else EXTRACT(v,w-1,0)
        if op=='zext': return s.toint(v,w) if v.w==0 else ZEXT(v,w)
        if op=='sext': return ITE(v,C(-1,w),C(0,w)) if v.w==0 else SEXT(v,w)
        if op in('fptrunc','fpext'): return FCVT(st.rm,v,w)
        if op in('sitofp','uitofp'):
            if v.w==0: v=s.toint(v,8) if op=='uitofp' else ITE(v,C(-1,8),C(0,8))
            return ITOF(op,st.rm,v,w)
        if op in('fptosi','fptoui'):
            r=FTOI(op,RTZ,v,max(w,2)); return r
        raise Unsup(op)
    # ---- control flow information
    def info(s,f):
        if f.name in s.cfg: return s.cfg[f.name]
        succ={}; uses={}; defs={}
        def ru(c,out):
            if not isinstance(c,tuple) or not c: return
            if c[0]=='reg': out.add(c[1])
            elif c[0]=='agg':
                for e in c[1]: ru(e,out)
            elif c[0]=='gep':
                for t,v in c[2]: ru(v,out)
        phiuse={}
        for b in f.order:
            ins=s.p.block(f,b); u=set(); d=set(); sc=[]
            for I in ins:
                if I.op=='phi':
                    for (pb,v) in I.a:
                        x=set(); ru(v,x)
                        phiuse.setdefault((pb,b),set()).update(x)
                    d.add(I.dst); continue
                x=set()
                def walk(o):
                    if isinstance(o,tuple):
                        if o and isinstance(o[0],str) and o[0] in('reg','agg','gep','glo','int','fp','null','zero','undef','poison','meta','cast','cbin'): ru(o,x); return
                        for e in o: walk(e)
                    elif isinstance(o,list):
                        for e in o: walk(e)
                walk(I.a)
                if I.op in('call','invoke') and isinstance(I.x,tuple) and I.x[0]=='reg': x.add(I.x[1])
                u|=(x-d)
                if I.dst: d.add(I.dst)
            I=ins[-1]
            if I.op=='br': sc=[I.a[0]] if len(I.a)==1 else [I.a[1],I.a[2]]
            elif I.op=='switch': sc=[I.a[1]]+[y for _,y in I.a[2]]
            elif I.op=='invoke': sc=[I.line[1]]
            succ[b]=list(dict.fromkeys(sc)); uses[b]=u; defs[b]=d
        live={b:set() for b in f.order}; ch=True
        while ch:
            ch=False
            for b in reversed(f.order):
                out=set()
                for q in succ[b]: out|=(live[q]-set(I.dst for I in s.p.block(f,q) if I.op=='phi'))|phiuse.get((b,q),set())
                n=uses[b]|(out-defs[b])
                n|=set(I.dst for I in s.p.block(f,b) if I.op=='phi')
                if n!=live[b]: live[b]=n; ch=True
        # weak topological order
        order=[]
        def scc(nodes,succf):
            idx={}; low={}; stk=[]; on=set(); res=[]; cnt=[0]
            for r in nodes:
                if r in idx: continue
                work=[(r,iter(succf(r)))]; idx[r]=low[r]=cnt[0]; cnt[0]+=1; stk.append(r); on.add(r)
                while work:
                    v,it=work[-1]
                    adv=False
                    for w in it:
                        if w not in idx:
                            idx[w]=low[w]=cnt[0]; cnt[0]+=1; stk.append(w); on.add(w); work.append((w,iter(succf(w)))); adv=True; break
                        elif w in on: low[v]=min(low[v],idx[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]]=min(low[work[-1][0]],low[v])
                    if low[v]==idx[v]:
                        comp=[]
                        while True:
                            w=stk.pop(); on.discard(w); comp.append(w)
                            if w==v: break
                        res.append(comp)
            return list(reversed(res))
        heads=set()
        def wto(nodes,entry):
            ns=set(nodes)
            def sf(x): return [y for y in succ[x] if y in ns]
            first=[entry] if entry in ns else []
            for comp in scc(first+[n for n in nodes if n!=entry],sf):
                if len(comp)==1 and comp[0] not in succ[comp[0]]: order.append(comp[0]); continue
                cs=set(comp)
                # header: the node entered from outside, first in layout order
                hd=[n for n in comp if any(n in succ[q] for q in f.order if q not in cs)] or [comp[0]]
                hd=sorted(hd,key=f.order.index)[0]
                order.append(hd); heads.add(hd)
                rest=[n for n in sorted(comp,key=f.order.index) if n!=hd]
                if rest:
                    # start from the successors of the header
                    ent=[q for q in succ[hd] if q in cs and q!=hd]
                    wto(rest,ent[0] if ent else rest[0])
        wto(f.order,f.order[0])
        rank={b:i for i,b in enumerate(order)}
        s.cfg[f.name]=(succ,live,rank,heads); return s.cfg[f.name]
    # ---- execution
    def call(s,st,name,args,retty=None):
        """run a function from the state; returns the merged state after the call (or None) and the value"""
        for pat,h in s.hooks.items():
            if (pat==name) or (hasattr(pat,'search') and pat.search(name)):
                return st,h(s,st,args,retty)
        f=s.m.fns.get(name)
        if f is None or f.decl:
            if name in s.m.aliases:
                c=s.m.aliases[name]
                if c[0]=='glo': return s.call(st,c[1],args,retty)
            r=s.extern(st,name,args,retty)
            if r is STOP: return None,None
            return st,r
        s.fnused.add(name)
        if s.stack.count(name)>=s.maxrec:
            if s.inc and not s.inc.check(AND(st.g,*s.assumes)): return None,None
            s.ob(st,TRUE,'unwind','recursion'); return None,None
        s.depth+=1
        if s.depth>s.maxdepth: raise Unsup('recursion depth')
        s.stack.append(name)
        succ,live,rank,heads=s.info(f)
        regs={}
        for (t,nm,at),v in zip(f.params,args):
            if 'byval' in at:
                sz=s.p.size(at['byval']); q=s.alloc(st,sz,'byval'); s.copy(st,q,v,C(sz,64)); v=q
            regs[nm]=v
        cur=State(st.g,regs,dict(st.mem),st.rm,st.errno)
        pend={f.order[0]:[cur]}; iters={}; rets=[]
        mine=set()
        while pend:
            b=min(pend,key=lambda x:rank.get(x,1<<30)); sts=pend.pop(b)
            S=sts[0]
            for q in sts[1:]: S=merge(S,q,live[b])
            if b in heads:
                iters[b]=iters.get(b,0)+1
                if iters[b]>1:
                    if S.g is FALSE: continue
                    if iters[b]>s.unwind: s.ob(S,TRUE,'unwind',b); continue
                    n=iters[b]
                    if s.empty(S.g): continue
                    if s.inc and n>s.lazy and not s.inc.check(AND(S.g,*s.assumes)): continue
            s.block(f,b,S,pend,rets,mine)
        s.depth-=1; s.stack.pop()
        if not rets: return None,None
        S,v=rets[0]
        for S2,v2 in rets[1:]:
            c=strip(S.g,S2.g)
            nv=None if v is None else vite(c,v,v2)
            S=merge(S,S2,()); v=nv
        # inner objects die
        for o in mine: S.mem.pop(o,None)
        st2=State(S.g,st.regs,S.mem,S.rm,S.errno)
        return st2,v
    def goto(s,f,b,to,S,g,pend):
        if g is FALSE: return
        if s.prune and s.inc and not s.inc.check(AND(g,*s.assumes)): return
        N=S.fork(g); vals=[]
        for I in s.p.block(f,to):
            if I.op!='phi': break
            for pb,v in I.a:
                if pb==b: vals.append((I.dst,s.cval(S,v,I.ty))); break
            else: raise Unsup('phi')
        for d,v in vals: N.regs[d]=v
        pend.setdefault(to,[]).append(N)
    def block(s,f,b,S,pend,rets,mine):
        for I in s.p.block(f,b):
            op=I.op; s.steps+=1
            if op=='phi': continue
            if op=='br':
                if len(I.a)==1: s.goto(f,b,I.a[0],S,S.g,pend)
                else:
                    c=s.cval(S,I.a[0],irm.Ty('int',1))
                    if I.a[1]==I.a[2]: s.goto(f,b,I.a[1],S,S.g,pend)
                    else:
                        s.goto(f,b,I.a[1],S,AND(S.g,c),pend); s.goto(f,b,I.a[2],S,AND(S.g,NOT(c)),pend)
                return
            if op=='switch':
                v=s.cval(S,I.a[0],I.ty); rest=S.g; tgt={}
                for (k,cv) in [(x[1],x) for x in I.a[2]]:
                    val=cv[0]
                    val=C(val[1] if isinstance(val,tuple) else val,v.w)
                    tgt[k]=OR(tgt.get(k,FALSE),EQ(v,val)); rest=AND(rest,NOT(EQ(v,val)))
                d=I.a[1]
                for k,c in tgt.items():
                    if k==d: rest=OR(rest,AND(S.g,c))
                    else: s.goto(f,b,k,S,AND(S.g,c),pend)
                s.goto(f,b,d,S,rest,pend); return
            if op=='ret':
                rets.append((S,None if I.a is None else s.cval(S,I.a[1],I.a[0]))); return
            if op=='unreachable': s.ob(S,TRUE,'unreachable',f.name); return
            if op=='resume': s.ob(S,TRUE,'exception',f.name); return
            if op in('call','invoke'):
                r=s.docall(S,I,f,b)
                if r is None: return
                S,v=r
                if I.dst: S.regs[I.dst]=v
                if op=='invoke': s.goto(f,b,I.line[1],S,S.g,pend); return
                continue
            if op=='alloca':
                n=s.p.size(I.ty)
                if I.a: n*=s.cval(S,I.a[1],I.a[0]).p
                q=s.alloc(S,n,'a'+str(I.dst)); mine.add(q.obj); S.regs[I.dst]=q; continue
            if op=='store':
                s.store(S,s.cval(S,I.a[1]),s.cval(S,I.a[0],I.ty),I.ty); continue
            S.regs[I.dst]=s.ev(S,I)
        raise Unsup('block without terminator')
    def ev(s,S,I):
        op=I.op
        if op in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'):
            return s.bin(op,s.cval(S,I.a[0],I.ty),s.cval(S,I.a[1],I.ty),S)
        if op=='icmp': return s.icmp(I.x,s.cval(S,I.a[0],I.ty),s.cval(S,I.a[1],I.ty),S)
        if op=='fcmp': return s.fcmp(I.x,s.cval(S,I.a[0],I.ty),s.cval(S,I.a[1],I.ty))
        if op=='fneg':
            v=s.cval(S,I.a[0],I.ty); return tuple(FNEG(x) for x in v) if isinstance(v,tuple) else FNEG(v)
        if op=='load': return s.load(S,s.cval(S,I.a[0]),I.ty)
        if op=='select':
            c=s.cval(S,I.a[0][1],I.a[0][0]); a=s.cval(S,I.a[1],I.ty); b=s.cval(S,I.a[2],I.ty)
            if isinstance(c,tuple): return tuple(vite(x,y,z) for x,y,z in zip(c,a,b))
            return vite(c,a,b)
        if op=='freeze': return s.cval(S,I.a[0],I.ty)
        if op in('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            return s.cast(op,s.cval(S,I.a[0],I.x),I.x,I.ty,S)
        if op=='getelementptr': return s.gep(S,I.ty,[(t,s.cval(S,v,t)) for t,v in I.a])
        if op=='extractvalue':
            v=s.cval(S,I.a[0],I.ty)
            for i in I.x: v=v[i]
            return v
        if op=='insertvalue':
            v=s.cval(S,I.a[0],I.ty); e=s.cval(S,I.a[1][1],I.a[1][0])
            def ins(v,ix):
                return e if not ix else v[:ix[0]]+(ins(v[ix[0]],ix[1:]),)+v[ix[0]+1:]
            return ins(v,I.x)
        if op=='extractelement':
            v=s.cval(S,I.a[0],I.ty); i=s.cval(S,I.a[1][1],I.a[1][0])
            if i.op=='c': return v[i.p]
            r=v[-1]
            for k in range(len(v)-2,-1,-1): r=vite(EQ(i,C(k,i.w)),v[k],r)
            return r
        if op=='insertelement':
            v=s.cval(S,I.a[0],I.ty); e=s.cval(S,I.a[1][1],I.a[1][0]); i=s.cval(S,I.a[2][1],I.a[2][0])
            if i.op=='c': return v[:i.p]+(e,)+v[i.p+1:]
            return tuple(vite(EQ(i,C(k,i.w)),e,x) for k,x in enumerate(v))
        if op=='shufflevector':
            v=s.cval(S,I.a[0],I.ty); w=s.cval(S,I.a[1],I.ty); mt,mc=I.a[2]; u=v+w
            if mc[0]=='zero': return tuple(u[0] for _ in range(mt.n))
            out=[]
            for e in mc[1]:
                out.append(u[e[1]] if e[0]=='int' else s.undef(I.ty.el))
            return tuple(out)
        if op=='landingpad': return NULL
        raise Unsup('instruction '+I.line)
    def docall(s,S,I,f,b):
        k,nm=I.x[0],I.x[1]
        if k=='asm':
            if re.search(r'asm (sideeffect )?""',nm): return S,None
            raise Unsup('inline asm')
        if k=='reg':
            p=S.regs[nm]
            if isinstance(p,Ptr) and isinstance(p.obj,tuple) and p.obj[0]=='fn': nm=p.obj[1]
            else: raise Unsup('indirect call')
        args=[]
        for t,c,at in I.a:
            if c[0]=='meta': args.append(None)
            else: args.append(s.cval(S,c,t))
        if nm.startswith('llvm.'):
            v=s.intrinsic(S,nm,args,I)
            if v is STOP: return None
            return S,v
        S2,v=s.call(S,nm,args,I.ty)
        if S2 is None: return None
        return S2,v
    def vmap(s,fn,*a):
        if isinstance(a[0],tuple): return tuple(s.vmap(fn,*[x[i] if isinstance(x,tuple) else x for x in a]) for i in range(len(a[0])))
        return fn(*a)
    def intrinsic(s,S,nm,a,I):
        n=nm.split('.')[1]
        if n in('lifetime','dbg','experimental','donothing','prefetch','invariant','sideeffect','var'):
            return None
        if n=='assume':
            return None
        if n in('trap','ubsantrap','debugtrap'):
            s.ob(S,TRUE,'trap',str(a[0].p) if a else ''); return STOP
        if n=='expect': return a[0]
        if n=='is':
            if nm.startswith('llvm.is.fpclass'): return s.vmap(lambda x:s.fpclass(x,a[1].p),a[0])
            if nm.startswith('llvm.is.constant'): return FALSE
        if n=='fabs': return s.vmap(FABS,a[0])
        if n=='copysign': return s.vmap(lambda x,y:CONCAT(sign_of(y),EXTRACT(x,x.w-2,0)),a[0],a[1])
        if n in('floor','ceil','trunc','roundeven'):
            r={'floor':RTN,'ceil':RTP,'trunc':RTZ,'roundeven':RNE}[n]; return s.vmap(lambda x:FOP('rti',r,x),a[0])
        if n in('rint','nearbyint'): return s.vmap(lambda x:FOP('rti',S.rm,x),a[0])
        if n=='round': return s.vmap(RTI_A,a[0])
        if n=='sqrt': return s.vmap(lambda x:FOP('fsqrt',S.rm,x),a[0])
        if n=='fma': return s.vmap(lambda x,y,z:FOP('fma',S.rm,x,y,z),*a)
        if n=='fmuladd': return s.vmap(lambda x,y,z:FOP('fadd',S.rm,FOP('fmul',S.rm,x,y),z),*a)
        if n in('minnum','maxnum'):
            lt=(lambda x,y:FCMP('flt',x,y)) if n=='minnum' else (lambda x,y:FCMP('flt',y,x))
            # either zero may be returned for (+0,-0)
            return s.vmap(lambda x,y:ITE(FNAN(x),y,ITE(FNAN(y),x,ITE(AND(FZERO(x),FZERO(y),NE(x,y)),ITE(fresh(0,'mz'),x,y),ITE(lt(x,y),x,y)))),a[0],a[1])
        if n in('ctlz','cttz'): return s.vmap(CLZ if n=='ctlz' else CTZ,a[0])
        if n=='ctpop': return s.vmap(POPCNT,a[0])
        if n=='bswap': return BSWAP(a[0])
        if n=='abs': return s.vmap(lambda x:ITE(SLT(x,C(0,x.w)),NEG(x),x),a[0])
        if n in('smax','smin','umax','umin'): return s.vmap({'smax':SMAX,'smin':SMIN,'umax':UMAX,'umin':UMIN}[n],a[0],a[1])
        if n in('fshl','fshr'): return s.vmap(lambda x,y,z:s.fsh(n,x,y,z),*a)
        if n in('uadd','usub','umul','sadd','ssub','smul'):
            x,y=a[0],a[1]; w=x.w; op=n[1:]
            if nm.split('.')[2]=='sat':
                if n=='usub': return ITE(ULT(x,y),C(0,w),SUB(x,y))
                if n=='uadd': r=ADD(x,y); return ITE(ULT(r,x),C(-1,w),r)
                raise Unsup(nm)
            r={'add':ADD,'sub':SUB,'mul':MUL}[op](x,y)
            if n=='uadd': o=ULT(r,x)
            elif n=='usub': o=ULT(x,y)
            elif n=='umul': o=NE(EXTRACT(MUL(ZEXT(x,2*w),ZEXT(y,2*w)),2*w-1,w),C(0,w))
            elif n=='smul':
                p=MUL(SEXT(x,2*w),SEXT(y,2*w)); o=NE(p,SEXT(r,2*w))
            else:
                f={'add':ADD,'sub':SUB}[op]; p=f(SEXT(x,w+1),SEXT(y,w+1)); o=NE(EXTRACT(p,w,w),EXTRACT(p,w-1,w-1))
            return (r,o)
        if n in('memcpy','memmove'): s.copy(S,a[0],a[1],a[2]); return None
        if n=='memset':
            cnt=a[2]; ty8=irm.Ty('int',8)
            if cnt.op=='c':
                for i in range(0,cnt.p): s.store(S,s.padd(a[0],i),a[1],ty8)
                return None
            top=min(urange(cnt)[1],s.sizes.get(getattr(a[0],'obj',None),0) if isinstance(a[0],Ptr) else 64)
            s.ob(S,UGT(cnt,C(top,cnt.w)),'oob','memset')
            for i in range(top):
                q=s.padd(a[0],i); g=S.g; c=UGT(cnt,C(i,cnt.w))
                S.g=AND(g,c); old=s.load(S,q,ty8); s.store(S,q,ITE(c,a[1],old),ty8); S.g=g
            return None
        if n=='vector':
            # llvm.vector.reduce.*
            r=nm.split('.')[3]; v=a[-1]; acc=None
            for x in v:
                if acc is None: acc=x
                else: acc={'or':lambda p,q:OR(p,q) if p.w==0 else BOR(p,q),'and':lambda p,q:AND(p,q) if p.w==0 else BAND(p,q),'add':ADD,'xor':lambda p,q:XORB(p,q) if p.w==0 else XOR(p,q)}[r](acc,x)
            return acc
        if n=='ldexp': return s.vmap(lambda x,y:spec.scale(x,y,S.rm),a[0],a[1])
        if n=='frexp': return spec.frexp(a[0])
        if n in('exp','exp2','log','log2','log10','pow','sin','cos','powi','exp10','tan'):
            s.externs.add(n); return s.vmap(lambda *x:UF('llvm.'+n,x,x[0].w),*a)
        if n=='get' and nm=='llvm.get.rounding':
            return ITE(EQ(S.rm,RNE),C(1,32),ITE(EQ(S.rm,RTN),C(3,32),ITE(EQ(S.rm,RTP),C(2,32),C(0,32))))
        if n=='lrint' or n=='llrint': return FTOI('fptosi',S.rm,a[0],s.p.res(I.ty).n)
        if n=='lround' or n=='llround': return FTOI('fptosi',RTZ,RTI_A(a[0]),s.p.res(I.ty).n)
        if n=='x86': return s.x86(S,nm,a,I)
        raise Unsup(nm)
    def x86(s,S,nm,a,I): raise Unsup(nm)
    def fsh(s,n,x,y,z):
        w=x.w; z=UREM(z,C(w,w)) if z.op!='c' else C(z.p%w,w)
        d=CONCAT(x,y); zz=ZEXT(z,2*w)
        if n=='fshl': return EXTRACT(SHL(d,zz),2*w-1,w)
        return EXTRACT(LSHR(d,zz),w-1,0)
    def fpclass(s,x,m):
        neg=neg_p(x); eb,mb=emb(x.w)
        nan=FNAN(x); inf=FINF(x); zero=FZERO(x); q=EQ(EXTRACT(x,mb-1,mb-1) if x.w!=80 else EXTRACT(x,62,62),C(1,1))
        sub=AND(EQ(expo(x),C(0,eb)),NOT(zero)); nrm=NOT(OR(nan,inf,EQ(expo(x),C(0,eb))))
        out=FALSE
        if m&3==3: out=OR(out,nan)
        elif m&1: out=OR(out,AND(nan,NOT(q)))
        elif m&2: out=OR(out,AND(nan,q))
        for bits,cl in((0x204,inf),(0x108,nrm),(0x90,sub),(0x60,zero)):
            if m&bits==bits: out=OR(out,cl)
            elif m&bits:
                low=bits&-bits # negative classes have the lower bit: 4 -inf, 8 -normal, 0x10 -sub, 0x20 -zero
                out=OR(out,AND(cl,neg if m&low else NOT(neg)))
        return out
    def extern(s,S,name,a,ty):
        if name in s.p.m.fns or True:
            if name=='fegetround': return SHL(ZEXT(S.rm,32),C(10,32))
            if name=='fesetround':
                S.rm=EXTRACT(LSHR(a[0],C(10,32)),1,0); return C(0,32)
            if name in('feraiseexcept','feclearexcept','fetestexcept','feholdexcept','feupdateenv','fesetenv','fegetenv'): return C(0,32)
            if name=='__errno_location': return Ptr('errno')
            if name in('abort','exit','_ZSt9terminatev','__assert_fail','_ZSt17__throw_bad_allocv','__cxa_throw','__clang_call_terminate','_ZSt20__throw_length_errorPKc') or name.startswith('_ZSt') and '__throw' in name:
                s.ob(S,TRUE,'abort',name); return STOP
            if name.startswith('__ubsan_handle'): s.ob(S,TRUE,'trap',name); return STOP
            if name in('frexp','frexpf','frexpl'):
                s.externs.add('frexp'); m,e=spec.frexp(a[0]); s.store(S,a[1],e,irm.Ty('int',32)); return m
            if name in('modf','modff','modfl'):
                s.externs.add('modf'); i,fr=spec.modf(a[0]); s.store(S,a[1],i,ty); return fr
            if name=='memcpy' or name=='memmove': s.copy(S,a[0],a[1],a[2]); return a[0]
            if name in('__cxa_begin_catch',): return NULL
            base=re.sub(r'[fl]$','',name) if name not in('erf','ceil','modf') else name
            pure={'sqrt','exp','exp2','exp10','expm1','log','log2','log10','log1p','pow','sin','cos','tan','asin','acos','atan','atan2','sinh','cosh','tanh','asinh','acosh','atanh','hypot','cbrt','fmod','remainder','nextafter','nexttoward','lgamma','tgamma','erf','erfc','fdim','fmax','fmin','ldexp','scalbn','scalbln','logb','ilogb','rint','nearbyint','floor','ceil','trunc','round','fma'}
            if base in pure or name in pure:
                w=s.p.res(ty).n; base=base if base in pure else name
                if base=='sqrt': return FOP('fsqrt',S.rm,a[0])
                if base=='remainder': return FREM(a[0],a[1])
                if base in('rint','nearbyint'): return FOP('rti',S.rm,a[0])
                if base in('floor','ceil','trunc'): return FOP('rti',{'floor':RTN,'ceil':RTP,'trunc':RTZ}[base],a[0])
                if base=='round': return RTI_A(a[0])
                if base=='fma': return FOP('fma',S.rm,*a)
                s.externs.add(base)
                if base in('ldexp','scalbn','scalbln'): return spec.scale(a[0],a[1],S.rm)
                if base=='ilogb': return spec.ilogb(a[0])
                if base=='logb': return spec.logb(a[0])
                if base in('nextafter','nexttoward'): return spec.nextafter(a[0],a[1])
                if base=='fdim': return ITE(OR(FNAN(a[0]),FNAN(a[1])),FOP('fsub',S.rm,*a),ITE(FCMP('flt',a[1],a[0]),FOP('fsub',S.rm,*a),C(0,w)))
                # the C library is outside the code under check: any deterministic function of the arguments
                return UF('libm.'+base,tuple(a)+(S.rm,),w)
        raise Unsup('extern '+name)
class PI:
    """pointer seen as an integer"""
    __slots__=('p',)
    def __init__(s,p): s.p=p
STOP=object()
PLAIN=False   # keep products by powers of two as products
def run(prog,name,args,rm=RNE,pre=TRUE,setup=None,**kw):
    """execute @name; args are terms or callables(ex,state)->value.  Returns (ex,state,value)."""
    ex=Exec(prog,rm=rm,**kw)
    st=State(TRUE,{},{},rm,V('errno0',32))
    if pre is not TRUE: ex.assumes=[pre]
    ex.sizes['errno']=4
    a=[x(ex,st) if callable(x) and not isinstance(x,T) else x for x in args]
    st2,v=ex.call(st,name,a,prog.m.fns[name].ret)
    return ex,st2,v,a
