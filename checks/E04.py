from acc import *
def run():
    ts=[]; deep=TIER=='thorough'
    for fn in('log','log2'):
        # float: every positive number; double: whole binades
        E=list(range(-149,128)); n=24
        addacc(ts,fn,'float','f',[('x',0,max(1,fb(Q(2)**e,32)),fb(Q(2)**(e+1),32)-1) for e in E],1,chunk=n)
        D=[-1074,-1060,-1023,-1022,-1021,-700,-300,-64,-20,-7,-4,-3,-2,-1,0,1,2,3,4,9,31,63,250,511,1000,1023] if not deep else list(range(-1074,1024,8))+list(range(-12,12))
        addacc(ts,fn,'double','d',[('x',0,max(1,fb(Q(2)**e,64)),fb(Q(2)**(e+1),64)-1) for e in D],1,chunk=1 if not deep else 8)
    return main('E04',ts,'own kernels (compile-time path), round to nearest; float: every positive finite argument; double: every argument of the listed binades',
      assumptions=['the reference is the Taylor expansion of the true logarithm with a 250-bit expansion point evaluation (mpmath) and an analytic tail bound'])
