"""SMT-LIB2 printing and a solver portfolio (z3, cvc5) run as subprocesses with hard time and memory limits."""
import subprocess,os,time,threading,tempfile,re,signal,resource,queue
from terms import *
import terms as tm
FS={16:'(_ FloatingPoint 5 11)',32:'(_ FloatingPoint 8 24)',64:'(_ FloatingPoint 11 53)',80:'(_ FloatingPoint 15 64)'}
FP={16:'5 11',32:'8 24',64:'11 53',80:'15 64'}
RMN=['RNE','RTN','RTP','RTZ']
BIN={'add':'bvadd','sub':'bvsub','mul':'bvmul','udiv':'bvudiv','urem':'bvurem','sdiv':'bvsdiv','srem':'bvsrem','bvand':'bvand','bvor':'bvor','xor':'bvxor',
     'shl':'bvshl','lshr':'bvlshr','ashr':'bvashr','concat':'concat','eq':'=','and':'and','or':'or','ult':'bvult','slt':'bvslt'}
FBIN={'fadd':'fp.add','fsub':'fp.sub','fmul':'fp.mul','fdiv':'fp.div','fma':'fp.fma','fsqrt':'fp.sqrt','rti':'fp.roundToIntegral'}
def sort(w): return 'Bool' if w==0 else '(_ BitVec %d)'%w
def const(v,w):
    if w==0: return 'true' if v else 'false'
    if w%4==0: return '#x%0*x'%(w//4,v)
    return '#b'+format(v,'0%db'%w)
class Printer:
    def __init__(s):
        s.out=[]; s.bv={}; s.fp={}; s.rmd={}; s.n=0; s.vars={}; s.ufs={}; s.hasfp=False
    def emit(s,l): s.out.append(l)
    def define(s,pre,srt,expr):
        s.n+=1; n='%s%d'%(pre,s.n); s.emit('(define-fun %s () %s %s)'%(n,srt,expr)); return n
    def rm(s,t):
        if t.op=='c': return RMN[t.p]
        if t.id not in s.rmd:
            b=s.term(t)
            s.rmd[t.id]=s.define('rm','RoundingMode','(ite (= %s #b00) RNE (ite (= %s #b01) RTN (ite (= %s #b10) RTP RTZ)))'%(b,b,b))
        return s.rmd[t.id]
    def rawfp(s,b,w):
        s.hasfp=True
        if w==80: b='(concat ((_ extract 79 64) %s) ((_ extract 62 0) %s))'%(b,b)
        return '((_ to_fp %s) %s)'%(FP[w],b)
    def need(s,t):
        """dependencies: list of (kind,term) for the two views"""
        op=t.op
        if op in tm.FPOPS:
            if op in('sitofp','uitofp'): return [('b',t.a[1])]
            if op in('rtia','frem'): return [('f',x) for x in t.a]
            return [('f',x) for x in t.a[1:]]
        if op in('feq','flt','fle','fsame','fisnan','fisinf','fabs'): return [('f',x) for x in t.a]
        if op in('fptosi','fptoui'): return [('f',t.a[1])]
        return [('b',x) for x in t.a]
    def fpdeps(s,t):
        if t.op in tm.FPOPS: return s.need(t)
        if tm._natfp(t):
            if t.op=='ite': return [('b',t.a[0]),('f',t.a[1]),('f',t.a[2])]
            if t.op in('xor','fabs'): return [('f',t.a[0])]
        return [('b',t)]
    def view(s,k,t):
        d=s.bv if k=='b' else s.fp
        if t.id in d: return d[t.id]
        st=[(k,t,False)]
        while st:
            kk,x,done=st.pop()
            d=s.bv if kk=='b' else s.fp
            if x.id in d: continue
            if not done:
                st.append((kk,x,True))
                if kk=='b':
                    deps=[('f',x)] if (x.op in tm.FPOPS or x.op=='fabs') else s.need(x)
                else: deps=s.fpdeps(x)
                for q in deps:
                    dd=s.bv if q[0]=='b' else s.fp
                    if q[1].id not in dd: st.append((q[0],q[1],False))
            else: d[x.id]=s.build(kk,x)
        return (s.bv if k=='b' else s.fp)[t.id]
    def term(s,t): return s.view('b',t)
    def build(s,k,t):
        op=t.op; w=t.w
        if k=='f':
            s.hasfp=True
            F=FS[w]
            if op in tm.FPOPS:
                if op in('sitofp','uitofp'):
                    f='to_fp' if op=='sitofp' else 'to_fp_unsigned'
                    return s.define('f',F,'((_ %s %s) %s %s)'%(f,FP[w],s.rm(t.a[0]),s.bv[t.a[1].id]))
                if op=='rtia': return s.define('f',F,'(fp.roundToIntegral RNA %s)'%s.fp[t.a[0].id])
                if op=='frem': return s.define('f',F,'(fp.rem %s %s)'%(s.fp[t.a[0].id],s.fp[t.a[1].id]))
                if op=='fcvt': return s.define('f',F,'((_ to_fp %s) %s %s)'%(FP[w],s.rm(t.a[0]),s.fp[t.a[1].id]))
                return s.define('f',F,'(%s %s %s)'%(FBIN[op],s.rm(t.a[0]),' '.join(s.fp[x.id] for x in t.a[1:])))
            if tm._natfp(t):
                if op=='ite': return s.define('f',F,'(ite %s %s %s)'%(s.bv[t.a[0].id],s.fp[t.a[1].id],s.fp[t.a[2].id]))
                if op=='xor': return s.define('f',F,'(fp.neg %s)'%s.fp[t.a[0].id])
                if op=='fabs': return s.define('f',F,'(fp.abs %s)'%s.fp[t.a[0].id])
            return s.define('f',F,s.rawfp(s.bv[t.id],w))
        if op=='c': return const(t.p,w)
        if op=='v':
            n='|%s|'%t.p
            s.emit('(declare-const %s %s)'%(n,sort(w))); s.vars[t.p]=t; return n
        if op in tm.FPOPS or op=='fabs':
            # bits of a floating point result: fresh bits that denote it (any NaN encoding)
            s.n+=1; n='bits%d'%s.n
            ww=79 if w==80 else w
            s.emit('(declare-const %s (_ BitVec %d))'%(n,ww))
            s.emit('(assert (= ((_ to_fp %s) %s) %s))'%(FP[w],n,s.fp[t.id]))
            if w==80:
                e='((_ extract 77 63) %s)'%n
                return s.define('t',sort(80),'(concat ((_ extract 78 63) %s) (ite (= %s #b000000000000000) #b0 #b1) ((_ extract 62 0) %s))'%(n,e,n))
            return n
        if op in('feq','flt','fle','fsame','fisnan','fisinf'):
            f={'feq':'fp.eq','flt':'fp.lt','fle':'fp.leq','fsame':'=','fisnan':'fp.isNaN','fisinf':'fp.isInfinite'}[op]
            return s.define('t','Bool','(%s %s)'%(f,' '.join(s.fp[x.id] for x in t.a)))
        if op in('fptosi','fptoui'):
            return s.define('t',sort(w),'((_ %s %d) %s %s)'%({'fptosi':'fp.to_sbv','fptoui':'fp.to_ubv'}[op],w,s.rm(t.a[0]),s.fp[t.a[1].id]))
        a=[s.bv[x.id] for x in t.a]
        if op in BIN: e='(%s %s %s)'%(BIN[op],a[0],a[1])
        elif op=='not': return '(not %s)'%a[0]
        elif op=='ite': e='(ite %s %s %s)'%tuple(a)
        elif op=='zext': e='((_ zero_extend %d) %s)'%(w-t.a[0].w,a[0])
        elif op=='sext': e='((_ sign_extend %d) %s)'%(w-t.a[0].w,a[0])
        elif op=='extract': e='((_ extract %d %d) %s)'%(t.p[0],t.p[1],a[0])
        elif op=='tab': return s.tab(t,a[0])
        elif op=='clz':
            e=const(w,w); 
            for i in range(w): e='(ite (= ((_ extract %d %d) %s) #b1) %s %s)'%(i,i,a[0],const(w-1-i,w),e)
        elif op=='ctz':
            e=const(w,w)
            for i in reversed(range(w)): e='(ite (= ((_ extract %d %d) %s) #b1) %s %s)'%(i,i,a[0],const(i,w),e)
        elif op=='popcnt':
            e='(bvadd '+' '.join('((_ zero_extend %d) ((_ extract %d %d) %s))'%(w-1,i,i,a[0]) for i in range(w))+')' if w>1 else a[0]
        elif op=='uf':
            sig=tuple(x.w for x in t.a)+(w,); nm='|%s/%s|'%(t.p,'_'.join(map(str,sig)))
            if nm not in s.ufs:
                s.ufs[nm]=1; s.emit('(declare-fun %s (%s) %s)'%(nm,' '.join(sort(x) for x in sig[:-1]),sort(w)))
            e='(%s %s)'%(nm,' '.join(a)) if a else nm
        else: raise Exception('print '+op)
        return s.define('t',sort(w),e)
    def tab(s,t,idx):
        vals=t.p; w=t.w; iw=t.a[0].w; n=len(vals); k=max(1,(n-1).bit_length())
        hi=urange(t.a[0])[1]
        memo={}
        def tree(lo,bits):
            # covers indices lo..lo+2^bits-1
            key=tuple(vals[min(i,n-1)] for i in range(lo,lo+(1<<bits)))
            if all(v==key[0] for v in key): return const(key[0],w)
            if key in memo: return memo[key]
            l=tree(lo,bits-1); h=tree(lo+(1<<(bits-1)),bits-1)
            r=s.define('tb',sort(w),'(ite (= ((_ extract %d %d) %s) #b1) %s %s)'%(bits-1,bits-1,idx,h,l))
            memo[key]=r; return r
        k=min(k,iw)
        e=tree(0,k)
        if iw>k and hi>=(1<<k):
            e='(ite (= ((_ extract %d %d) %s) %s) %s %s)'%(iw-1,k,idx,const(0,iw-k),e,const(vals[-1],w))
        return s.define('t',sort(w),e)
def to_smt(asserts,values=()):
    p=Printer()
    for x in asserts:
        n=p.term(x); p.emit('(assert %s)'%n)
    vs=[]
    for v in values: vs.append(p.term(v))
    logic='QF_'+('UF' if p.ufs else '')+'BV'+('FP' if p.hasfp else '')
    return '(set-logic %s)\n'%('ALL' if p.ufs else logic)+'\n'.join(p.out)+'\n', vs
SOLVERS={
 'z3':['z3-new','-in','-smt2'],
 'z3old':['z3','-in','-smt2'],
 'cvc5':['cvc5','--lang=smt2','--fp-exp'],
 'cvc5e':['cvc5','--lang=smt2','--bitblast=eager','--bv-sat-solver=cadical'],
}
MEM=int(os.environ.get('SOLVER_MEM_GB','3'))<<30
def _pre():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS,(MEM,MEM))
class Proc:
    def __init__(s,name,text,timeout):
        s.name=name; s.t0=time.time(); s.timeout=timeout
        s.f=tempfile.TemporaryFile(); s.f.write(text.encode()); s.f.flush(); s.f.seek(0)
        s.o=tempfile.TemporaryFile()
        s.p=subprocess.Popen(SOLVERS[name],stdin=s.f,stdout=s.o,stderr=subprocess.STDOUT,preexec_fn=_pre)
    def poll(s):
        if s.p.poll() is not None: return True
        if time.time()-s.t0>s.timeout: s.kill(); return True
        return False
    def kill(s):
        try: os.killpg(s.p.pid,signal.SIGKILL)
        except Exception: pass
        s.p.wait()
    def result(s):
        s.o.seek(0); out=s.o.read().decode(errors='replace')
        return out
def parse_values(txt,n):
    """values printed by (get-value (...)) : bit-vectors and Booleans only"""
    return re.findall(r'(#x[0-9a-fA-F]+|#b[01]+|\btrue\b|\bfalse\b)\)',txt)
class Result:
    def __init__(s,status,model=None,solver='',secs=0,raw=''):
        s.status=status; s.model=model; s.solver=solver; s.secs=secs; s.raw=raw
import multiprocessing
slots=multiprocessing.BoundedSemaphore(int(os.environ.get('VERIF_JOBS','8')))
turn=multiprocessing.Lock()
deadline=None   # absolute time after which no solver is started
def solve(asserts,inputs=(),timeout=60,solvers=('z3','cvc5'),quick=4):
    """decide the conjunction of asserts.  inputs: variables to report."""
    fin=[]
    for a in asserts:
        if a is FALSE: return Result('unsat',solver='simplifier')
        if a is not TRUE: fin.append(a)
    if not fin: return Result('sat',{},'simplifier')
    body,names=to_smt(fin,inputs)
    tail='(check-sat)\n'+('(get-value (%s))\n'%' '.join(names) if names else '')
    text=('(set-option :produce-models true)\n' if names else '')+body+tail
    t0=time.time()
    stages=[]
    if quick and len(solvers)>1: stages.append(([solvers[0]],min(quick,timeout)))
    stages.append((list(solvers),timeout))
    raw=''
    for names_,tmo in stages:
        n=len(names_)
        with turn:
            for _ in range(n): slots.acquire()
        try:
            if deadline is not None:
                tmo=min(tmo,deadline-time.time())
                if tmo<=0: return Result('unknown',raw='deadline')
            ps=[Proc(x,text,tmo) for x in names_]
            live=list(ps); res=None
            while live and res is None:
                time.sleep(0.02 if time.time()-t0<2 else 0.1)
                for p in list(live):
                    if p.poll():
                        live.remove(p); out=p.result(); raw=out
                        first=[l for l in out.splitlines() if l.strip() in('sat','unsat','unknown')]
                        # an error before the verdict makes the answer inconclusive
                        pre=out.split(first[0])[0] if first else out
                        if '(error' in pre: continue
                        if first and first[0].strip() in('sat','unsat'):
                            res=Result(first[0].strip(),None,p.name,time.time()-p.t0,out); break
            for p in live: p.kill()
        finally:
            for _ in range(n): slots.release()
        if res:
            if res.status=='sat':
                vals=parse_values(res.raw.split('sat',1)[1],len(inputs))
                if len(vals)!=len(inputs):
                    res.model=None
                else:
                    m={}
                    for v,x in zip(inputs,vals):
                        m[v.p]=int(x[2:],16) if x.startswith('#x') else int(x[2:],2) if x.startswith('#b') else int(x=='true')
                    res.model=m
            return res
    return Result('unknown',secs=time.time()-t0,raw=raw[-400:])
def solve_text(text,timeout):
    """one z3 run on a complete script; the verdict only"""
    t0=time.time()
    with turn: slots.acquire()
    try:
        if deadline is not None: timeout=min(timeout,deadline-time.time())
        if timeout<=0: return Result('unknown',raw='deadline')
        p=Proc('z3',text,timeout)
        while not p.poll(): time.sleep(0.02 if time.time()-t0<2 else 0.1)
        out=p.result(); first=[l.strip() for l in out.splitlines() if l.strip()]
        st=first[0] if first and first[0] in('sat','unsat') else 'unknown'
        return Result(st,None,'z3 (integers)',time.time()-t0,out[-300:])
    finally: slots.release()
class APrinter(Printer):
    """over-approximating view for feasibility: products, quotients and floating-point operations are arbitrary values"""
    def need(s,t):
        if s.cut(t): return []
        return Printer.need(s,t)
    def cut(s,t):
        op=t.op
        if op in('mul','udiv','urem','sdiv','srem') and t.w>=8 and not any(x.op=='c' for x in t.a): return True
        return op in('fadd','fsub','fmul','fdiv','fma','fsqrt','frem')
    def build(s,k,t):
        if s.cut(t) and k=='b' and t.op not in tm.FPOPS:
            s.n+=1; n='ab%d'%s.n; s.emit('(declare-const %s %s)'%(n,sort(t.w)))
            lo,hi=urange(t)
            if hi<mask(t.w): s.emit('(assert (bvule %s %s))'%(n,const(hi,t.w)))
            return n
        if s.cut(t) and k=='f':
            s.n+=1; n='af%d'%s.n; s.emit('(declare-const %s %s)'%(n,FS[t.w])); return n
        return Printer.build(s,k,t)
    def fpdeps(s,t):
        if s.cut(t): return []
        return Printer.fpdeps(s,t)
class Inc:
    """incremental feasibility checks during symbolic execution (z3)"""
    def __init__(s):
        s.n=0; s.x=[None,None]; s.log=[]
    def get(s,k):
        if s.x[k] is None:
            p=subprocess.Popen(['z3-new','-in','-smt2'],stdin=subprocess.PIPE,stdout=subprocess.PIPE,text=True,preexec_fn=_pre)
            p.stdin.write('(set-option :timeout 1000)\n'); s.x[k]=[p,APrinter() if k==0 else Printer(),0]
        return s.x[k]
    def check(s,cond,ms=1000,exact=True):
        """could cond hold?  (True when undecided)"""
        if cond.op=='c': return bool(cond.p)
        if not s.ask(0,cond,ms): return False
        return s.ask(1,cond,ms) if exact else True
    def ask(s,k,cond,ms):
        t0=time.time(); r=s.ask_(k,cond,ms); s.log.append((round(time.time()-t0,2),k,r)); return r
    def ask_(s,k,cond,ms):
        x=s.get(k); p,pr,sent=x; f=p.stdin
        try:
            n=pr.term(cond)
            for l in pr.out[sent:]: f.write(l+'\n')
            x[2]=len(pr.out); s.n+=1
            f.write('(push)\n(assert %s)\n(set-option :timeout %d)\n(check-sat)\n(pop)\n'%(n,ms)); f.flush()
            while True:
                l=p.stdout.readline().strip()
                if l=='unsat': return False
                if l in('sat','unknown','timeout'): return True
                if l=='' and p.poll() is not None: break
        except BrokenPipeError: pass
        # the solver ran out of memory: start afresh next time
        try: p.kill(); p.wait()
        except Exception: pass
        s.x[k]=None
        return True
    def close(s):
        for x in s.x:
            if x:
                try: x[0].kill(); x[0].wait()
                except Exception: pass
