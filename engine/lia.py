"""Integer view of the linear fragment of bit-vector terms: word sums with carries, constant shifts, slices and comparisons.
Every bit-vector is the integer it denotes; an addition that may wrap gets a carry variable, slices get digit variables.
The translation is exact (equisatisfiable) for the operators it accepts and returns None for all others."""
from terms import *
import terms as tm
class Out(Exception): pass
def runs(c,w):
    """positions where the bits of c change"""
    return [0]+[k for k in range(1,w) if (c>>k&1)!=(c>>(k-1)&1)]+[w]
def translate(asserts):
    order=postorder(asserts); out=[]; n=[0]; val={}; cuts={}
    def src(t,lo,hi):
        return t
    for t in order:
        if t.op=='extract': cuts.setdefault(t.a[0].id,set()).update((t.p[1],t.p[0]+1))
        elif t.op in('shl','lshr') and t.a[1].op=='c' and t.a[1].p<t.w:
            k=t.a[1].p; cuts.setdefault(t.a[0].id,set()).update((0,t.w-k) if t.op=='shl' else (k,t.w))
        elif t.op=='bvor' and any(x.op=='c' for x in t.a):
            c,y=(t.a[0],t.a[1]) if t.a[0].op=='c' else (t.a[1],t.a[0])
            cuts.setdefault(y.id,set()).update(runs(c.p,t.w))
    def var(w,pre='i'):
        n[0]+=1; x='%s%d'%(pre,n[0]); out.append('(declare-const %s Int)(assert (and (<= 0 %s) (< %s %d)))'%(x,x,x,1<<w)); return x
    def plus(xs):
        xs=[x for x in xs if x!='0']
        return '0' if not xs else xs[0] if len(xs)==1 else '(+ %s)'%' '.join(xs)
    def times(c,x): return '0' if x=='0' else x if c==1 else str(c*int(x)) if x.isdigit() else '(* %d %s)'%(c,x)
    def name(e):
        if e.startswith('('):
            n[0]+=1; x='e%d'%n[0]; out.append('(define-fun %s () Int %s)'%(x,e)); return x
        return e
    seg={}; qr={}
    def digits(t):
        if t.id in seg: return seg[t.id]
        cs=sorted(cuts.get(t.id,set())|{0,t.w}); ds=[]
        if t.op=='c': ds=[(lo,hi,str((t.p>>lo)&mask(hi-lo))) for lo,hi in zip(cs,cs[1:])]
        elif len(cs)==2: ds=[(0,t.w,val[t.id])]
        else:
            ds=[(lo,hi,var(hi-lo,'d')) for lo,hi in zip(cs,cs[1:])]
            out.append('(assert (= %s %s))'%(val[t.id],plus([times(1<<lo,x) for lo,hi,x in ds])))
        seg[t.id]=ds; return ds
    def slice_(t,lo,hi):
        return name(plus([times(1<<(l-lo),x) for l,h,x in digits(t) if l>=lo and h<=hi]))
    for t in order:
        op=t.op; w=t.w; a=[val[x.id] for x in t.a]
        if op=='c': r=str(t.p) if w else ('true' if t.p else 'false')
        elif op=='v':
            if w: r=var(w,'v')
            else:
                n[0]+=1; r='b%d'%n[0]; out.append('(declare-const %s Bool)'%r)
        elif op=='not': r='(not %s)'%a[0]
        elif op in('and','or'): r='(%s %s %s)'%(op,a[0],a[1])
        elif op=='ult': r='(< %s %s)'%(a[0],a[1])
        elif op=='eq': r='(= %s %s)'%(a[0],a[1])
        elif op=='ite': r='(ite %s %s %s)'%tuple(a)
        elif op=='zext': r=a[0]
        elif op=='concat': r=plus([times(1<<t.a[1].w,a[0]),a[1]])
        elif op=='extract': r=slice_(t.a[0],t.p[1],t.p[0]+1)
        elif op=='add':
            s=plus(a)
            if urange(t.a[0])[1]+urange(t.a[1])[1]<=mask(w): r=s
            else:
                x=var(w); k=var(1,'k'); out.append('(assert (= %s (+ %s (* %d %s))))'%(s,x,1<<w,k)); r=x
        elif op=='sub':
            x=var(w); k=var(1,'k'); out.append('(assert (= (+ %s (* %d %s)) (+ %s %s)))'%(a[0],1<<w,k,a[1],x)); r=x
        elif op=='xor' and t.a[1].op=='c' and t.a[1].p==mask(w): r='(- %d %s)'%(mask(w),a[0])
        elif op=='bvor' and any(x.op=='c' for x in t.a):
            c,y=(t.a[0].p,t.a[1]) if t.a[0].op=='c' else (t.a[1].p,t.a[0])
            q=runs(c,w); r=plus([str(c)]+[times(1<<lo,slice_(y,lo,hi)) for lo,hi in zip(q,q[1:]) if not c>>lo&1])
        elif op=='bvor' and tm._disj(*t.a): r=plus(a)
        elif op=='mul' and any(x.op=='c' for x in t.a):
            c,y=(t.a[0].p,a[1]) if t.a[0].op=='c' else (t.a[1].p,a[0])
            if urange(t.a[0])[1]*urange(t.a[1])[1]<=mask(w): r=times(c,y)
            else:
                x=var(w); k=var(w,'k'); out.append('(assert (= %s (+ %s (* %d %s))))'%(times(c,y),x,1<<w,k)); r=x
        elif op=='shl' and t.a[1].op=='c': 
            k=t.a[1].p; r='0' if k>=w else times(1<<k,slice_(t.a[0],0,w-k))
        elif op=='lshr' and t.a[1].op=='c':
            k=t.a[1].p; r='0' if k>=w else slice_(t.a[0],k,w)
        elif op in('udiv','urem') and t.a[1].op=='c' and t.a[1].p:
            c=t.a[1].p; key=(t.a[0].id,c)
            if key not in qr:
                q=var(w,'q'); m=var(w,'m'); out.append('(assert (and (= %s (+ (* %d %s) %s)) (< %s %d)))'%(a[0],c,q,m,m,c)); qr[key]=(q,m)
            r=qr[key][op=='urem']
        elif op in('popcnt','clz','ctz'):
            r=var(w,'o'); out.append('(assert (<= %s %d))'%(r,t.a[0].w)); op=='popcnt' and out.append('(assert (= (= %s 0) (= %s 0)))'%(r,a[0]))
        else: raise Out(op)
        if w and r.startswith('('): r=name(r)
        elif not w and r.startswith('('):
            n[0]+=1; x='p%d'%n[0]; out.append('(define-fun %s () Bool %s)'%(x,r)); r=x
        val[t.id]=r
    for t in asserts: out.append('(assert %s)'%val[t.id])
    return '(set-logic QF_LIA)\n'+'\n'.join(out)+'\n(check-sat)\n'
