from check import *
def run():
    ts=[]
    def B1(c): return ITE(c,C(1,8),C(0,8))
    for ty,sx in FTL:
        h=H('cls_'+sx,'%s x'%ty,'bool nan, bool inf, bool fin, bool nrm, bool sgn, int c','nan=ccm::isnan(x);inf=ccm::isinf(x);fin=ccm::isfinite(x);nrm=ccm::isnormal(x);sgn=ccm::signbit(x);c=ccm::fpclassify(x);')
        def goals(i,o,rm):
            x=i['x']; w=x.w; eb,mb=emb(w)
            # straight from the encoding
            e=expo(x); m=mant(x); ones=EQ(e,C(-1,eb)); z=EQ(e,C(0,eb)); mz=EQ(m,C(0,mb))
            nan=AND(ones,NOT(mz)); inf=AND(ones,mz); zero=AND(z,mz); sub=AND(z,NOT(mz)); nrm=AND(NOT(ones),NOT(z))
            sg=EQ(EXTRACT(x,w-1,w-1),C(1,1))
            cl=ITE(nan,C(0,32),ITE(inf,C(1,32),ITE(zero,C(2,32),ITE(sub,C(3,32),C(4,32)))))
            return [Goal('isnan',EQ(o['nan'],B1(nan))),Goal('isinf',EQ(o['inf'],B1(inf))),Goal('isfinite',EQ(o['fin'],B1(NOT(ones)))),Goal('isnormal',EQ(o['nrm'],B1(nrm))),
                    Goal('signbit',EQ(o['sgn'],B1(sg))),Goal('fpclassify',EQ(o['c'],cl))]
        add(ts,h,goals)
    for ty,s in(('int',1),('unsigned',0),('long long',1),('unsigned long long',0)):
        h=H('icls_'+ty.replace(' ','_'),'%s x'%ty,'bool nan, bool inf, bool fin, bool nrm, bool sgn','nan=ccm::isnan(x);inf=ccm::isinf(x);fin=ccm::isfinite(x);nrm=ccm::isnormal(x);sgn=ccm::signbit(x);')
        def goals(i,o,rm,s=s):
            x=i['x']; z=C(0,x.w)
            return [Goal('integers are never NaN or infinite',AND(EQ(o['nan'],C(0,8)),EQ(o['inf'],C(0,8)),EQ(o['fin'],C(1,8)))),Goal('isnormal(int)',EQ(o['nrm'],B1(NE(x,z)))),
                    Goal('signbit(int)',EQ(o['sgn'],B1(SLT(x,z) if s else FALSE)))]
        add(ts,h,goals,cfgs=('ct','gcc'))
    return main('C01',ts,'every bit pattern of float, double and canonical x87 long double; every int/unsigned/long long/unsigned long long')
