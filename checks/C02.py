from check import *
def run():
    ts=[]
    def B1(c): return ITE(c,C(1,8),C(0,8))
    def goals(i,o,rm):
        x,y=i['x'],i['y']
        if x.w!=y.w:
            w=max(x.w,y.w); x,y=FCVT(RNE,x,w),FCVT(RNE,y,w)
        lt,gt,eq=FCMP('flt',x,y),FCMP('flt',y,x),FCMP('feq',x,y); un=OR(FNAN(x),FNAN(y))
        s={'gt':gt,'ge':OR(gt,eq),'lt':lt,'le':OR(lt,eq),'lg':OR(lt,gt),'un':un}
        return [Goal(n,EQ(o[n],B1(v))) for n,v in s.items()]
    body='gt=ccm::isgreater(x,y);ge=ccm::isgreaterequal(x,y);lt=ccm::isless(x,y);le=ccm::islessequal(x,y);lg=ccm::islessgreater(x,y);un=ccm::isunordered(x,y);'
    outs='bool gt, bool ge, bool lt, bool le, bool lg, bool un'
    for ty,sx in FTL:
        add(ts,H('cmp_'+sx,'%s x, %s y'%(ty,ty),outs,body),goals)
    add(ts,H('cmp_fd','float x, double y',outs,body),goals)
    add(ts,H('cmp_df','double x, float y',outs,body),goals,cfgs=('ct','ct+pt'))
    def gi(i,o,rm):
        x,y=ITOF('sitofp',RNE,i['x'],64),i['y']
        return goals({'x':x,'y':y},o,rm)
    add(ts,H('cmp_id','int x, double y',outs,body),gi,cfgs=('ct','gcc','ct+pt'))
    return main('C02',ts,'every pair of bit patterns of float, double and canonical x87 long double, mixed float/double and int/double pairs')
