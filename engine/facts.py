"""True statements about single IEEE operations, valid in every rounding mode (rounding is monotone and leaves
representable values alone).  They are added when the operation itself is abstracted to a fresh value.  Each of them is
checked exactly by the solver at half precision in every run of L01 (custom goals)."""
from terms import *
def one(w): return FCVT(RNE,ITOF('sitofp',RNE,C(1,32),64),w)
def AB(x): return FABS(x)
def arith(u,v):
    op=u.op; rm,x,y=u.a; w=u.w; Z=C(0,w); O=one(w); O=C(O.p,w) if O.op=='c' else O
    return relate(op,x,y,v,Z,O)
def relate(op,x,y,v,Z,O):
    le=lambda a,b: FCMP('fle',a,b); lt=lambda a,b: FCMP('flt',a,b); eq=lambda a,b: FCMP('feq',a,b)
    nx,ny=FNAN(x),FNAN(y); sx=lambda t: EQ(EXTRACT(t,t.w-1,t.w-1),C(1,1)); zero=lambda t: eq(t,Z)
    fs=[]
    if op=='fmul':
        bad=OR(nx,ny,AND(zero(x),FINF(y)),AND(FINF(x),zero(y)))
        fs.append(EQ(FNAN(v),bad)); ok=NOT(bad)
        fs.append(IMP(ok,EQ(sx(v),XORB(sx(x),sx(y)))))
        for p,q in((x,y),(y,x)):
            fs.append(IMP(AND(ok,le(AB(p),O)),le(AB(v),AB(q))))
            fs.append(IMP(AND(ok,le(O,AB(p))),le(AB(q),AB(v))))
            fs.append(IMP(AND(ok,zero(p)),zero(v)))
            fs.append(IMP(AND(ok,eq(p,O)),eq(v,q)))
    if op in('fadd','fsub'):
        if op=='fsub': y=FNEG(y); ny=FNAN(y)
        bad=OR(nx,ny,AND(FINF(x),FINF(y),NOT(EQ(sx(x),sx(y)))))
        fs.append(EQ(FNAN(v),bad)); ok=NOT(bad)
        for p,q in((x,y),(y,x)):
            fs.append(IMP(AND(ok,le(Z,p)),le(q,v))); fs.append(IMP(AND(ok,le(p,Z)),le(v,q)))
            fs.append(IMP(AND(ok,zero(p)),eq(v,q)))
        fs.append(IMP(ok,EQ(lt(Z,v),lt(FNEG(y),x)))); fs.append(IMP(ok,EQ(lt(v,Z),lt(x,FNEG(y)))))
    if op=='fdiv':
        bad=OR(nx,ny,AND(zero(x),zero(y)),AND(FINF(x),FINF(y)))
        fs.append(EQ(FNAN(v),bad)); ok=NOT(bad)
        fs.append(IMP(ok,EQ(sx(v),XORB(sx(x),sx(y)))))
        fs.append(IMP(AND(ok,le(AB(x),AB(y))),le(AB(v),O))); fs.append(IMP(AND(ok,le(AB(y),AB(x))),le(O,AB(v))))
        fs.append(IMP(AND(ok,le(O,AB(y))),le(AB(v),AB(x)))); fs.append(IMP(AND(ok,eq(y,O)),eq(v,x)))
    return fs
def lemma_queries(ops=('fmul','fadd','fsub','fdiv'),timeout=60,extra=()):
    """every statement of relate() proved at half precision for all operands and rounding modes"""
    import smt
    out={'task':'rounding lemmas at half precision','cfg':'lemma','queries':[],'viol':[],'known':[],'incon':[],'valid':0,'fns':[],'externs':[],'notes':[],'steps':0,'sexec_s':0,'feas':0,'witness':0,'terms':0}
    from concurrent.futures import ThreadPoolExecutor
    x,y,rm=V('lx',16),V('ly',16),V('lrm',2); O=C(0x3c00,16); jobs=[]
    for op in ops:
        v=FOP(op,rm,x,y)
        for k,f in enumerate(relate(op,x,y,v,C(0,16),O)): jobs.append((op,k,f))
    jobs+=[(n,0,f) for n,f in extra]
    def go(j):
        op,k,f=j; r=smt.solve([NOT(f)],[],timeout=timeout)
        out['queries'].append(dict(goal='lemma %s #%d (half precision)'%(op,k),status=r.status,secs=round(r.secs,2),solver=r.solver))
        if r.status!='unsat': out['incon'].append('lemma %s #%d: %s'%(op,k,r.status))
    with ThreadPoolExecutor(8) as tp: list(tp.map(go,jobs))
    return out
def steps(x0,y0,d,c,m,r):
    """d=fl(x0-y0), r=fl(c+m): a step shorter than the rounded distance does not pass the target"""
    Z=C(0,d.w); le=lambda a,b: FCMP('fle',a,b); lt=lambda a,b: FCMP('flt',a,b)
    fin=AND(FFIN(x0),FFIN(c)); same=FCMP('feq',c,y0)
    return [IMP(AND(fin,same,le(Z,m),lt(m,d)),le(r,x0)),IMP(AND(fin,same,le(m,Z),lt(d,m)),le(x0,r))]
class Stepping:
    fresh=staticmethod(lambda: stepping())
def stepping():
    """facts callback: arith plus the step lemma for every pair of a difference and a sum"""
    nodes=[]
    def f(u,v):
        fs=arith(u,v)
        if u.op in('fadd','fsub'):
            x,y=u.a[1],u.a[2]; ny=FNEG(y) if u.op=='fsub' else y     # v = fl(x+ny)
            nodes.append((x,ny,v,u.a[0]))
            for a,b,d,rm in nodes:
                for c,m,r,rm2 in nodes:
                    if r is d or rm is not rm2 or not(v is d or v is r): continue
                    for p,q in((a,b),(b,a)):
                        for cc,mm in((c,m),(m,c)): fs+=steps(p,FNEG(q),d,cc,mm,r)
        return fs
    return f
def step_lemma(timeout=300):
    import smt
    x,y,m,rm=V('lx',16),V('ly',16),V('lm',16),V('lrm',2); qs=[]
    for k,f in enumerate(steps(x,y,FOP('fsub',rm,x,y),y,m,FOP('fadd',rm,y,m))): qs.append(('step lemma #%d'%k,f))
    return qs
