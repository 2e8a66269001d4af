from acc import *
def run():
    ts=[]; deep=TIER=='thorough'
    # float: every argument with a normal result
    ed=[(-87.33,-86.0)]+[(-float(k),-float(k-1)) for k in range(86,1,-1)]
    F=[(a+0.0,b-1e-7 if b>1 else b) for a,b in ed]+[(-1.0,-2.0**-10),(2.0**-10,1.0)]+[(float(k),float(k+1)) for k in range(1,88)]+[(88.0,88.72)]
    T=[('x',s,1,fb(2.0**-10,32)) for s in(0,1)]
    addacc(ts,'exp','float','f',F+T,1,chunk=6)
    F2=[(-float(k),-float(k-2)) for k in range(126,2,-2)]+[(-2.0,-2.0**-10),(2.0**-10,2.0)]+[(float(k),min(float(k+2),127.99999)) for k in range(2,128,2)]
    addacc(ts,'exp2','float','f',F2+T,1,chunk=6)
    D=[(a,b) for a,b in((0.0005,.18),(.25,.36),(-.18,-.0005),(-.36,-.25),(1.0,1.18),(-1.18,-1.0),(17.0,17.18),(88.0,88.18),(-300.18,-300.0),(709.6,709.78),(-708.39,-708.2))]
    if deep: D+=[(k*.36,(k+1)*.36) for k in range(1,40)]+[(-(k+1)*.36,-k*.36) for k in range(1,40)]+[(k*12.0,k*12+.36) for k in range(2,59)]+[(-k*12.0-.36,-k*12.0) for k in range(2,59)]
    T=[('x',s,1,fb(0.0005,64)) for s in(0,1)]
    addacc(ts,'exp','double','d',D+T,1,chunk=1)
    D2=[(.001,.25),(.375,.5),(-.25,-.001),(-.5,-.375),(1.0,1.25),(-1.25,-1.0),(17.0,17.25),(88.0,88.25),(-300.25,-300.0),(1023.75,1023.999999),(-1021.99,-1021.75)]
    if deep: D2+=[(k*.5,(k+1)*.5) for k in range(1,30)]+[(-(k+1)*.5,-k*.5) for k in range(1,30)]+[(k*17.0,k*17+.5) for k in range(2,60)]+[(-k*17.0-.5,-k*17.0) for k in range(2,60)]
    T=[('x',s,1,fb(0.001,64)) for s in(0,1)]
    addacc(ts,'exp2','double','d',D2+T,1,chunk=1)
    return main('E03',ts,'own kernels (compile-time path), round to nearest, results in the normal range; float: every such argument; double: every argument in the listed windows',
      assumptions=['the reference is the Taylor expansion of the true exponential with a 250-bit expansion point evaluation (mpmath) and an analytic tail bound'])
