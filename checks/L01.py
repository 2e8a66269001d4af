from check import *
from facts import arith,lemma_queries
def run():
    ts=[]
    OPS=('fmul','fadd','fsub')
    for ty,sx in FT:
        w=CT[ty][0]; Z=C(0,w); O=FCVT(RNE,ITOF('sitofp',RNE,C(1,32),64),w)
        h=H('lerp_'+sx,'%s a, %s b, %s t'%(ty,ty,ty),'%s r'%ty,'r=ccm::lerp(a,b,t);')
        def g(i,o,rm,Z=Z,O=O):
            a,b,t,r=i['a'],i['b'],i['t'],o['r']; fin=AND(FFIN(a),FFIN(b)); eq=lambda p,q: FCMP('feq',p,q); le=lambda p,q: FCMP('fle',p,q)
            k=dict(absops=OPS,facts=arith); u=AND(fin,le(Z,t),le(t,O))
            return [Goal('lerp(a,b,0) is a',eq(r,a),pre=AND(fin,eq(t,Z)),**k),Goal('lerp(a,b,1) is b',eq(r,b),pre=AND(fin,eq(t,O)),**k),
                Goal('lerp(a,a,t) is a',eq(r,a),pre=AND(fin,eq(a,b),FFIN(t),FFIN(FOP('fsub',rm,O,t))),**k),
                Goal('lerp with t in [0,1] stays between the ends (a<=b)',AND(le(a,r),le(r,b)),pre=AND(u,le(a,b)),**k),
                Goal('lerp with t in [0,1] stays between the ends (b<=a)',AND(le(b,r),le(r,a)),pre=AND(u,le(b,a)),**k),
                Goal('a NaN operand gives NaN',FNAN(r),pre=OR(FNAN(a),FNAN(b),FNAN(t)),**k)]
        add(ts,h,g,cfgs=('ct','rt','gcc'))
    h=H('lerp_mixed','float a, double b, int t','double r,double s','r=ccm::lerp(a,b,t); s=ccm::lerp((double)a,b,(double)t);')
    add(ts,h,lambda i,o,rm: [Goal('mixed operands are interpolated in the common type',FSAME(o['r'],o['s']))],cfgs=('ct',))
    return main('L01',ts,'all operand triples of float and double (finite a and b), every rounding mode at run time (lerp(a,a,t): t with finite 1-t)',custom=lambda known,budget: lemma_queries(('fmul','fadd','fsub')))
