"""Check runner: builds the encodings from /repo's current tree, discharges the goals, replays counterexamples."""
import sys,os,time,json,random,threading,traceback,multiprocessing,signal,struct,resource
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from terms import *
import terms as tm, smt, sexec, build, lia
from build import H,Unit,CT,BYTES,constexpr_eval,CompileError,EXT
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
tlock=threading.Lock()
class Goal:
    """pre => goal must hold for every input.  cases: list of Boolean terms; the rest is decided as one more case.
    known: name of a listed finding that covers `region` (a Boolean term over the inputs)"""
    def __init__(s,label,goal,pre=TRUE,cases=(),timeout=None,region=None,known=None,solvers=('z3','cvc5'),sub=None,absops=None,facts=None,absmul=False,lia=False,real=None,claim=None,out='r',py=None,depth=30,tabdepth=None,budget=None,tay=None):
        s.tay=tay
        s.real=real; s.claim=claim; s.out=out; s.py=py; s.depth=depth; s.tabdepth=tabdepth; s.budget=budget
        s.sub=sub; s.absops=absops; s.facts=facts; s.absmul=absmul; s.lia=lia
        s.label=label; s.goal=goal; s.pre=pre; s.cases=list(cases); s.timeout=timeout; s.region=region; s.known=known; s.solvers=solvers; s.trap=False
class Task:
    def __init__(s,h,cfg,goals,rms=(0,),pre=None,timeout=120,opt='-O2',hooks=None,std='17',traps=True,samples=None,nsamp=48,sanitize=False,extra='',target=(),unwind=300,prune=False,novalidate=False,name=None,trapknown=(),init=None,uvals=None,trapmask=None,lazy=1,plain=False):
        s.plain=plain
        s.lazy=lazy
        s.h=h; s.cfg=cfg; s.goals=goals; s.rms=rms; s.pre=pre; s.timeout=timeout; s.opt=opt; s.hooks=hooks; s.std=std; s.traps=traps; s.samples=samples; s.nsamp=nsamp
        s.sanitize=sanitize; s.extra=extra; s.target=tuple(target); s.unwind=unwind; s.prune=prune; s.novalidate=novalidate; s.name=name or h.name; s.trapknown=list(trapknown); s.init=init; s.unit=None; s.uvals=uvals; s.trapmask=trapmask
def tb(t): return NE(t,C(0,t.w))
ALL=('ct','rt','gcc','ct+pt')
def add(ts,h,goals,cfgs=ALL,rms=None,**kw):
    for c in cfgs: ts.append(Task(h,c,goals,rms=((0,) if 'ct' in c.split('+') else ('sym',)) if rms is None else rms,**kw))
FT=(('float','f'),('double','d'))
FTL=FT+(('long double','l'),)
RM=['to-nearest','downward','upward','toward-zero']
def specials(t):
    if t in('double','float','long double'):
        w=CT[t][0]; eb,mb=(15,64) if w==80 else emb(w)
        bias=(1<<(eb-1))-1
        def f(v):
            d=struct.unpack('<Q',struct.pack('<d',v))[0]
            import softfloat as sf
            return d if w==64 else tm._out(sf.cvt(d,64,tm._fw(w),0),w)
        big=[0,1,2,3] if w!=80 else [0,1,2,3]
        out=[f(v) for v in(0.0,0.5,1.0,1.5,2.0,2.5,3.0,0.1,0.49999999999999994,4503599627370495.5,4503599627370496.0,9007199254740993.0,1e10,1e300,1e-300,3.141592653589793,0.3,7.0,1e-5,8388607.5,16777217.0,123456.78)]
        if w!=80:
            out+=[1,2,(1<<mb)-1,1<<mb,(mask(eb)<<mb)-1,mask(eb)<<mb,(mask(eb)<<mb)|(1<<(mb-1))|5,(mask(eb)<<mb)|1]
        else: out+=[1,(1<<63)-1,(1<<64)|(1<<63),(0x7fff<<64)|(1<<63),(0x7fff<<64)|(3<<62),(0x7ffe<<64)|((1<<64)-1)]
        return out+[v|(1<<(w-1)) for v in out]
    if t=='bool': return [0,1]
    w=CT[t][0]
    return [v&mask(w) for v in(0,1,2,3,4,5,7,8,10,31,32,63,64,100,1023,1024,-1,-2,-3,-31,-64,-1074,-1100,(1<<(w-1)),(1<<(w-1))-1,(1<<(w-1))+1)]
def rand(t,r):
    w=CT[t][0]
    if t=='bool': return r.getrandbits(1)
    if t in('double','float'):
        eb,mb=emb(w); k=r.randrange(4)
        if k==0: return r.getrandbits(w)
        if k==1: return (r.getrandbits(1)<<(w-1))|(((mask(eb)>>1)+r.randrange(-5,mb+6))<<mb)|r.getrandbits(mb)
        if k==2: return (r.getrandbits(1)<<(w-1))|(((mask(eb)>>1)+r.randrange(-3,12))<<mb)|((r.getrandbits(mb)>>(mb-6))<<(mb-6))
        return r.choice(specials(t))
    if t=='long double':
        if r.randrange(3)==0: return r.choice(specials(t))
        e=r.randrange(1,0x7fff) if r.randrange(2) else 16383+r.randrange(-4,70)
        return (r.getrandbits(1)<<79)|(e<<64)|(1<<63)|r.getrandbits(63)
    return r.choice([r.getrandbits(w),r.choice(specials(t)),r.getrandbits(5),(-r.getrandbits(6))&mask(w)])
def sample_inputs(task,n):
    if task.samples: return task.samples(n)
    r=random.Random(SEED*7919+hash(task.name)%1000 if 0 else SEED*7919+sum(map(ord,task.name)))
    out=[]
    sp=[specials(t) for t,_ in task.h.ins]
    if len(sp)==1: out=[{task.h.ins[0][1]:v} for v in sp[0]]
    else:
        for _ in range(n): out.append({nm:r.choice(sp[k]) for k,(t,nm) in enumerate(task.h.ins)})
    for _ in range(n): out.append({nm:rand(t,r) for t,nm in task.h.ins})
    return out
class Enc:
    """the encoding of one harness at one rounding mode"""
    pass
def hx(d): return {k:hex(v) for k,v in d.items()}
def encode(task,rm,known):
    h=task.h; E=Enc(); E.ins={nm:V(nm,CT[t][0]) for t,nm in h.ins}
    inc=smt.Inc()
    E.rmt=V('rm',2) if rm=='sym' else C(rm,2)
    pre=TRUE
    for t,nm in h.ins:
        if t=='bool': pre=AND(pre,ULE(E.ins[nm],C(1,8)))
        if t=='long double':
            # only canonical encodings (what x87 produces): explicit bit set iff exponent nonzero
            v=E.ins[nm]; pre=AND(pre,EQ(EQ(EXTRACT(v,63,63),C(1,1)),NE(EXTRACT(v,78,64),C(0,15))))
    if task.pre: pre=AND(pre,task.pre(E.ins))
    E.pre=pre
    args=[(EQ(EXTRACT(E.ins[nm],0,0),C(1,1)) if t=='bool' else E.ins[nm]) for t,nm in h.ins]+[(lambda ex,st,nm=nm,t=t: ex.alloc(st,16,nm)) for t,nm in h.outs]
    t0=time.time(); sexec.PLAIN=task.plain
    ex,st,v,a=sexec.run(task.unit.ll(),'h_'+h.name,args,rm=E.rmt,pre=pre,inc=inc,unwind=task.unwind,prune=task.prune,hooks=task.hooks,lazy=task.lazy)
    inc.close()
    E.ex=ex; E.feas=inc.n; E.secs=time.time()-t0
    if st is None: raise sexec.Unsup('no path returns')
    E.g=st.g; E.st=st
    E.outs={nm:ex.rd(st,q.obj,0,BYTES[t]) for (t,nm),q in zip(h.outs,a[len(h.ins):])}
    return E
def run_task(task,known,q,budget):
    out={'task':task.name,'cfg':task.cfg,'queries':[],'viol':[],'known':[],'incon':[],'valid':0,'fns':[],'externs':[],'notes':[],'steps':0,'sexec_s':0,'feas':0,'witness':0,'terms':0}
    try:
        for rm in task.rms: one(task,rm,known,out,budget)
    except Exception as e:
        out['incon'].append('%s/%s: %s: %s'%(task.name,task.cfg,type(e).__name__,str(e)[-800:])); out['tb']=traceback.format_exc()
    q.put(out)
def conc_ok(task,goals_fn,ins,outs,rm):
    """labels of the goals that the concrete run breaks"""
    iv={nm:V(nm,CT[t][0]) for t,nm in task.h.ins}; ov={nm:V('o.'+nm,8*BYTES[t]) for t,nm in task.h.outs}
    gl=goals_fn(iv,ov,C(rm,2)); env=dict(ins); env.update({'o.'+k:v for k,v in outs.items()})
    bad=[]
    for g in gl:
        try: p,ok=evaluate([g.pre,g.goal],env)
        except Unsupported: continue
        if p and ok and g.py: ok=g.py(ins,outs)
        if p and not ok: bad.append(g)
    return bad
def inregion(g,ins):
    if g.region is None: return False
    return bool(evaluate([g.region],ins)[0])
def one(task,rm,known,out,budget):
    name='%s[%s%s]'%(task.name,task.cfg,'' if rm==0 else ','+(RM[rm] if rm!='sym' else 'any rounding'))
    E=encode(task,rm,known); ex=E.ex
    out['fns']=sorted(set(out['fns'])|ex.fnused); out['externs']=sorted(set(out['externs'])|ex.externs)
    out['steps']+=ex.steps; out['sexec_s']+=E.secs; out['feas']+=E.feas
    goals=task.goals(E.ins,E.outs,E.rmt)
    out['terms']+=len(postorder(list(E.outs.values())+[g for g,*_ in ex.oblig]))
    inputs=[E.ins[nm] for t,nm in task.h.ins]+([E.rmt] if rm=='sym' else [])
    # -- executor validated against the compiled function on concrete inputs
    vi=list(E.outs.items()); order=postorder([t for _,t in vi]+[E.g,E.pre])
    seen_w=0; nd=any(t.op=='v' and '!' in t.p for t in order)
    if not task.novalidate:
        for s in sample_inputs(task,task.nsamp):
            if budget()<20: break
            for r in ([rm] if rm!='sym' else [random.Random(len(out['fns'])+out['valid']).randrange(4)]):
                env=dict(s)
                if rm=='sym': env['rm']=r
                try: ev=evaluate([t for _,t in vi]+[E.g,E.pre],env,order=order,ufs=task.uvals)
                except Unsupported: continue
                if not ev[-1]: continue
                seen_w+=1
                nat=task.unit.native(task.h.name,s,r)
                if nat is None:
                    if ev[-2]: out['incon'].append('%s: real code crashed on %s'%(name,hx(s)))
                    continue
                if not ev[-2]: continue
                out['valid']+=1
                bad=[]
                for (nm,t),x in zip(vi,ev):
                    y=nat[nm]; ty=[q for q,n2 in task.h.outs if n2==nm][0]
                    if x!=y:
                        if ty in('double','float','long double') and tm._same(x,y,t.w): continue
                        bad.append((nm,hex(x),hex(y)))
                if bad:
                    br=[g for g in conc_ok(task,task.goals,s,nat,r) if not(g.known in known and inregion(g,s))]
                    # nondeterministic choices of the encoding may differ from one run of the code; those that break the property count
                    if br: report(task,name,br[0],s,nat,r,known,out,'concrete run')
                    out['notes'].append('%s: encoding and code differ on %s: %s'%(name,hx(s),bad))
                    if not nd: out.setdefault('mismatch',[]).append((name,hx(s),bad))
    out['witness']+=seen_w
    jobs=[]
    if task.traps:
        obs=[o for o in ex.oblig if task.trapmask is None or not task.trapmask(o)]
        live=[o for o in obs if o[0] is not FALSE]; n=len(live) if len(live)<=120 else 30
        for k in range(0,max(1,len(live)),max(1,n)):
            part=live[k:k+n]; bad=OR(*[o[0] for o in part]) if part else FALSE
            kinds=sorted(set('%s %s in %s'%(o[1],o[2],o[3]) for o in part))[:12]
            tg=Goal('no trap, abort, out-of-range access or exhausted loop bound',NOT(bad)); tg.kinds=kinds; tg.trap=True
            tg.obs=part; jobs.append((tg,None))
            for rg in task.trapknown:
                tg.region=rg[1](E.ins); tg.known=rg[0]
    for g in goals:
        g.trap=False; jobs.append((g,None))
    def gsub(g,asr):
        if not g.sub: return asr
        mp={E.ins[n].id if n in E.ins else E.rmt.id:t for n,t in g.sub.items()}
        with tlock: return tm.substitute(asr,mp)
    def dis(job):
        g,_=job
        pre=AND(E.pre,g.pre); listed=g.known is not None and g.known in known
        gl=g.goal if g.trap else IMP(E.g,g.goal)
        if g.real: realgoal(task,name,g,rm,known,out,E,budget); return
        if g.tay: taygoal(task,name,g,rm,known,out,E,budget); return
        # vacuity: the precondition is satisfiable together with a normal return
        if not g.trap and g.pre is not TRUE:
            w=smt.solve(gsub(g,[pre,E.g]),[],timeout=min(60,budget()))
            out['queries'].append(dict(goal=name+': reachable: '+g.label,status=w.status,secs=round(w.secs,2),solver=w.solver))
            if w.status=='unsat':
                out['incon'].append('%s: %s: the precondition is unsatisfiable'%(name,g.label)); return
        base=[pre,NOT(gl)]
        if listed: base.append(NOT(g.region))
        cases=g.cases or [TRUE]
        qs=[[c] for c in cases]
        if g.cases: qs.append([NOT(OR(*g.cases))])
        for k,cq in enumerate(qs):
            tmo=min(g.timeout or task.timeout,budget())
            if tmo<1: out['incon'].append('%s: %s: out of time'%(name,g.label)); return
            asr=gsub(g,base+cq); want=inputs; back=None
            if g.sub:
                want=tm.variables(list(g.sub.values())); done=set(g.sub); want+=[v for v in inputs if v.p not in done and v not in want]
                back=dict(g.sub)
            r=None
            if g.absops or g.absmul:
                with tlock: ab=tm.absops(asr,g.absops,g.facts) if g.absops else tm.absmul(asr)
                if ab is not None:
                    r=smt.solve(ab,[],timeout=tmo,solvers=g.solvers)
                    if r.status!='unsat': r=None
            if g.lia:
                with tlock:
                    ab=tm.absmul(asr) or asr
                    try: txt=lia.translate([x for x in ab if x is not TRUE])
                    except lia.Out as e: txt=None; out['notes'].append('%s: %s not linear: %s'%(name,g.label,e))
                if txt:
                    r=smt.solve_text(txt,min(tmo,60))
                    if r.status!='unsat': r=None
            if r is None and (g.absops or g.absmul or g.lia):
                m=guess(task,E,asr)
                if m is not None: r=smt.Result('sat',m,'concrete candidate')
            if r is None: r=smt.solve(asr,want,timeout=tmo,solvers=g.solvers)
            if r.model is not None and back:
                r.model={**r.model,**{n:tm.evaluate([t],r.model)[0] for n,t in back.items()}}
            out['queries'].append(dict(goal='%s: %s%s'%(name,g.label,'' if len(qs)==1 else ' case %d/%d'%(k+1,len(qs))),status=r.status,secs=round(r.secs,2),solver=r.solver))
            if r.status=='unsat': continue
            if r.status!='sat': out['incon'].append('%s: %s case %d: %s'%(name,g.label,k,r.status+' '+r.raw[-200:])); continue
            handle(task,name,g,r.model or {},rm,known,out,E); return
        if listed:
            r=smt.solve([pre,NOT(gl),g.region],inputs,timeout=min(g.timeout or task.timeout,max(1,budget())))
            out['queries'].append(dict(goal='%s: %s (listed finding %s)'%(name,g.label,g.known),status=r.status,secs=round(r.secs,2),solver=r.solver))
            if r.status=='sat' and r.model is not None: out['known'].append((g.known,'%s: %s fails for %s'%(name,g.label,hx(r.model))))
    with ThreadPoolExecutor(4) as tp: list(tp.map(dis,jobs))
def inreg(i,reg):
    r=TRUE
    for nm,(sg,a,b) in reg.items():
        x=i[nm]; m=EXTRACT(x,x.w-2,0); r=AND(r,EQ(sign_of(x),C(sg,1)),ULE(C(a,x.w-1),m),ULE(m,C(b,x.w-1)))
    return r
def RGoal(label,i,regions,claim,goal=TRUE,**kw):
    """a goal decided by the real-arithmetic back end: claim(ctx,outcome) on every input of the regions (name -> sign,
    lowest, highest magnitude bits); `goal` / py is the same statement on concrete bits, used for replay"""
    return Goal(label,goal,pre=OR(*[inreg(i,r) for r in regions]),real=regions,claim=claim,**kw)
def realgoal(task,name,g,rm,known,out,E,budget):
    import real
    widths={nm:(CT[t][0]) for t,nm in task.h.ins}; rng=random.Random(SEED)
    for reg in g.real:
        st={'lemmas':0,'secs':0.0}; end=time.time()+min(g.timeout or task.timeout,budget()); bd=lambda: min(end-time.time()+5,budget())
        bad=real.prove([E.outs[g.out]],widths,real.Region(reg),lambda c,rs: g.claim(c,c.outcome(rs[0])),st,rm=0 if rm==0 else 4,depth=g.depth,tabdepth=g.tabdepth,budget=bd)
        out['queries'].append(dict(goal='%s: %s on %s (%d solver lemmas, %d path regions)'%(name,g.label,' '.join('%s%s:%x..%x'%('-+'[1-v[0]],k,v[1],v[2]) for k,v in reg.items()),st['lemmas'],st.get('regions',0)),status='unsat' if not bad else 'unproved',secs=round(st['secs'],2),solver='z3 real/integer'))
        out['reallemmas']=out.get('reallemmas',0)+st['lemmas']
        if not bad: continue
        tried=0
        for rg,why in bad+[(real.Region(reg),'')]:
            o=postorder([E.outs[g.out]])
            for k in range(1500):
                if budget()<8: break
                ins={}
                for nm,(sg,a,b) in rg.ins.items():
                    w=widths[nm]; v=a if k==0 else b if k==1 else rng.randint(a,b) if k%2 else (rng.randint(a,b)>>(real.PREC[w]//2))<<(real.PREC[w]//2)
                    ins[nm]=(sg<<(w-1))|min(b,max(a,v))
                for nm in widths:
                    if nm not in ins: ins[nm]=rng.getrandbits(widths[nm])
                try: v=evaluate([E.outs[g.out]],{**ins,'rm':0},order=o)[0]
                except Unsupported: v=None
                if v is not None and not any(x is g or x.label==g.label for x in conc_ok1(task,g,ins,{g.out:v})): continue
                nat=task.unit.native(task.h.name,ins,0 if rm==0 else k%4); tried+=1
                if nat is None: report(task,name,g,ins,{},0,known,out,'the real code crashes'); return
                br=conc_ok(task,task.goals,ins,nat,0)
                if br: report(task,name,br[0],ins,nat,0 if rm==0 else k%4,known,out,'found in a region the solver could not prove; replayed'); return
                if tried>40: break
        out['incon'].append('%s: %s: not proved on %s: %s'%(name,g.label,[(nm,s,hex(a),hex(b)) for nm,(s,a,b) in bad[0][0].ins.items()],bad[0][1]))
        return
def TGoal(label,regions,claim,py=None,goal=TRUE,**kw):
    """a goal decided over Taylor models: claim(ctx,model,stats) on every input of the regions (input name, sign, lowest and
    highest magnitude bits); py / `goal` is the same statement on concrete values, used for replay"""
    return Goal(label,goal,tay=regions,claim=claim,py=py,**kw)
def taygoal(task,name,g,rm,known,out,E,budget):
    import taylor
    widths={nm:(CT[t][0]) for t,nm in task.h.ins}; rng=random.Random(SEED); root=E.outs[g.out]
    for nm,sg,a,b in g.tay:
        w=widths[nm]; st={'lemmas':0,'secs':0.0}; end=time.time()+min(g.timeout or task.timeout,budget()); bd=lambda: min(end-time.time(),budget())
        bad=taylor.prove(root,nm,w,sg,a,b,lambda cx,n: g.claim(cx,n,st),st,depth=g.depth if g.depth!=30 else 60,budget=bd)
        out['queries'].append(dict(goal='%s: %s on %s%s:%x..%x (%d segments, %d polynomial queries, largest proved bound %.3g of the tolerance)'%(name,g.label,'-' if sg else '+',nm,a,b,st.get('regions',0),st['lemmas'],st.get('worst',0)),status='unsat' if not bad else 'unproved',secs=round(st['secs'],2),solver='z3 polynomial (Taylor model)'))
        out['reallemmas']=out.get('reallemmas',0)+st['lemmas']
        if not bad: continue
        o=postorder([root]); tried=0
        for lo,hi,why in bad+[(a,b,'')]:
            n=64 if hi-lo>64 else hi-lo+1
            for k in range(n if lo!=a or hi!=b else 400):
                if budget()<8: break
                v=lo if k==0 else hi if k==1 else rng.randint(lo,hi); ins={nm:(sg<<(w-1))|v}
                for q in widths:
                    if q not in ins: ins[q]=0
                try: c=evaluate([root],{**ins,'rm':0},order=o)[0]
                except Unsupported: c=None
                if c is not None and not any(x.label==g.label for x in conc_ok1(task,g,ins,{g.out:c})): continue
                nat=task.unit.native(task.h.name,ins,0); tried+=1
                if nat is None: report(task,name,g,ins,{},0,known,out,'the real code crashes'); return
                br=conc_ok(task,task.goals,ins,nat,0)
                if br: report(task,name,br[0],ins,nat,0,known,out,'found in a segment the solver refused; replayed'); return
                if tried>60: break
        out['incon'].append('%s: %s: not proved on %s%s:%x..%x: %s'%(name,g.label,'-' if sg else '+',nm,bad[0][0],bad[0][1],bad[0][2]))
        return
def conc_ok1(task,g,ins,outs):
    full={nm:outs.get(nm,0) for t,nm in task.h.outs}
    return conc_ok(task,task.goals,ins,full,0)
def guess(task,E,asr):
    """concrete candidate counterexamples, tried before an exact query that follows a failed abstraction"""
    order=postorder(asr)
    for s in sample_inputs(task,400):
        for rm in ([0] if not isinstance(E.rmt,tm.T) or E.rmt.op=='c' else range(4)):
            env=dict(s); env['rm']=rm if E.rmt.op!='c' else E.rmt.p
            try:
                if all(evaluate(asr,env,order=order,ufs=task.uvals)): return env
            except Exception: pass
    return None
def handle(task,name,g,model,rm,known,out,E):
    ins={nm:model.get(nm,0) for t,nm in task.h.ins}; r=model.get('rm',0) if rm=='sym' else rm
    if g.trap:
        env=dict(ins); env['rm']=r
        hit=[]
        for o in g.obs:
            try:
                if evaluate([o[0]],env)[0]: hit.append(o)
            except Unsupported: pass
        what='; '.join('%s %s in %s'%(o[1],o[2],o[3]) for o in hit[:4]) or '; '.join(g.kinds)
        if task.sanitize:
            # confirm with the sanitizer build
            ok,txt=ubsan_replay(task,ins,r)
            if ok: report(task,name,g,ins,{},r,known,out,'undefined behaviour: '+txt+' ('+what+')')
            else: out['incon'].append('%s: %s at %s not confirmed by the sanitizer: %s'%(name,what,hx(ins),txt))
            return
        nat=task.unit.native(task.h.name,ins,r)
        if nat is None: report(task,name,g,ins,{},r,known,out,'the real code crashes or does not return: '+what); return
        ok,txt=ubsan_replay(task,ins,r)
        if ok: report(task,name,g,ins,{},r,known,out,txt+' ('+what+')'); return
        out['incon'].append('%s: %s reached for %s but the real code returns'%(name,what,hx(ins))); return
    nat=task.unit.native(task.h.name,ins,r)
    if nat is None: report(task,name,g,ins,{},r,known,out,'the real code crashes or does not return'); return
    bad=[b for b in conc_ok(task,task.goals,ins,nat,r) if not(b.known in known and inregion(b,ins))]
    if bad:
        report(task,name,bad[0],ins,nat,r,known,out,'replayed'); return
    out['incon'].append('%s: %s: counterexample %s is not reproduced by the real code (%s)'%(name,g.label,hx(ins),hx(nat)))
def ubsan_replay(task,ins,rm):
    u=task.unit; p=os.path.join(build.scratch(),'us%d_%d'%(os.getpid(),random.getrandbits(30))); h=task.h
    main='int main(){unsigned char in[%d]={%s}; unsigned char out[%d]; n_%s(in,out,%d); return 0;}\n'%(16*max(1,len(h.ins)),','.join(str(b) for t,n in h.ins for b in int(ins[n]).to_bytes(16,'little')),16*max(1,len(h.outs)),h.name,rm)
    open(p+'.cpp','w').write(u.text('g++' if 0 else True)+main)
    try: build.sh(['clang++']+build.flags(u.cfg,u.std)+['-O1','-ffp-contract=off','-fsanitize=undefined,address','-fno-sanitize=vptr','-fno-sanitize-recover=all','-D_GLIBCXX_ASSERTIONS','-o',p,p+'.cpp']+u.target)
    except CompileError as e: return False,'sanitizer build failed '+str(e)[-300:]
    import subprocess
    try: r=subprocess.run([p],capture_output=True,text=True,timeout=30,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0',UBSAN_OPTIONS='print_stacktrace=0'))
    except subprocess.TimeoutExpired: return True,'does not terminate'
    if r.returncode: return True,' '.join(l for l in r.stderr.splitlines() if 'error' in l.lower())[:400] or 'exit %d'%r.returncode
    return False,'clean'
def report(task,name,g,ins,nat,rm,known,out,how):
    if g.known in known and inregion(g,ins): return
    extra=''
    if 'ct' in task.cfg.split('+') and nat and not g.trap and rm in(0,'sym'):
        ce=constexpr_eval(task.h,ins,extra=task.extra,cfg='+'.join(x for x in task.cfg.split('+') if x!='ct'),std=task.std)
        if isinstance(ce,dict):
            if not conc_ok(task,task.goals,ins,ce,0):
                out['incon'].append('%s: %s: %s not reproduced in a constant expression (%s)'%(name,g.label,hx(ins),hx(ce))); return
            extra='constant evaluation (clang++) gives '+str(hx(ce))
        else: extra=ce[-300:]
    out['viol'].append(dict(goal=g.label,where=name,inputs=hx(ins),rounding=RM[rm] if isinstance(rm,int) else str(rm),outputs=hx(nat),how=how,extra=extra,harness=task.h.src(),cfg=task.cfg))
def load_known(pid):
    p=os.path.join(VERIF,'known_findings.json')
    if not os.path.exists(p): return {}
    return {k['id']:k for k in json.load(open(p))['findings'] if k['property']==pid and k.get('status')=='known'}
def main(pid,tasks,bounds,assumptions=(),extra_explain='',custom=None,budget_s=None):
    t0=time.time(); tier=TIER
    total=budget_s or (600 if tier=='quick' else 840)
    end=t0+min(total,850)
    smt.deadline=end-5
    budget=lambda: end-10-time.time()
    known=load_known(pid); res=[]; build.scratch()
    # units: group by configuration
    units={}
    for t in tasks:
        k=(t.cfg,t.opt,t.std,t.sanitize,t.extra,t.target); units.setdefault(k,[]).append(t)
    fails=[]
    def comp(kv):
        k,ts=kv; hs={t.h.name:t.h for t in ts}
        u=Unit(list(hs.values()),k[0],opt=k[1],std=k[2],sanitize=k[3],extra=k[4],target=k[5])
        for t in ts: t.unit=u
        try: u.ll(); 
        except CompileError as e: fails.append('compiling %s: %s'%(k[0],e)); return
        if any(not t.novalidate for t in ts):
            try: u.lib()
            except CompileError as e: fails.append('compiling %s: %s'%(k[0],e))
    with ThreadPoolExecutor(6) as tp: list(tp.map(comp,units.items()))
    if not fails:
        ctx=multiprocessing.get_context('fork'); q=ctx.Queue(); live={}; todo=list(tasks); n=int(os.environ.get('VERIF_WORKERS','9'))
        while todo or live:
            while todo and len(live)<n:
                t=todo.pop(0); p=ctx.Process(target=run_task,args=(t,known,q,budget)); p.start(); live[p.pid]=(p,t)
            try: o=q.get(timeout=0.2); res.append(o)
            except Exception: pass
            for pid_,(p,t) in list(live.items()):
                if not p.is_alive():
                    p.join(); del live[pid_]
                    t.done=True
                    if p.exitcode!=0: fails.append('%s/%s: worker ended with %s'%(t.name,t.cfg,p.exitcode))
            if time.time()>end+5:
                for p,t in live.values(): p.kill(); fails.append('%s/%s: out of time'%(t.name,t.cfg))
                break
        while True:
            try: res.append(q.get(timeout=0.3))
            except Exception: break
    if custom:
        try: res.append(custom(known,budget))
        except Exception as e: fails.append('custom: %s %s'%(type(e).__name__,e)); traceback.print_exc()
    got=set((o['task'],o['cfg']) for o in res)
    if not fails:
        for t in tasks:
            if (t.name,t.cfg) not in got: fails.append('%s/%s: no result'%(t.name,t.cfg))
    incon=fails+[x for o in res for x in o['incon']]; viol=[v for o in res for v in o['viol']]
    mism=[m for o in res for m in o.get('mismatch',[])]
    qs=[q for o in res for q in o['queries']]; goals=[x for x in qs if 'reachable:' not in x['goal'] and 'listed finding' not in x['goal']]
    dis=[x for x in goals if x['status']=='unsat']
    kf={}
    for o in res:
        for k,w in o['known']: kf.setdefault(k,[]).append(w)
    for k,w in sorted(kf.items()):
        print('KNOWN-FINDING: property=%s %s: %s'%(pid,k,known[k]['what']))
    ev={'property':pid,'tier':tier,'seed':SEED,'level':'other','wall_s':round(time.time()-t0,1),'violations':len(viol),'assumptions':list(assumptions)+COMMON_ASSUME,
     'coverage':{'explanation':'Solver-based checking of the real code: each harness below calls the public ccmath function(s); the LLVM IR compiled on this run from /repo is executed symbolically over all inputs, and z3/cvc5 decide every goal. '+extra_explain,
      'bounds':bounds,'harnesses':[{'name':o['task'],'configuration':o['cfg'],'ir_instructions_executed':o['steps'],'term_nodes':o['terms'],'symbolic_execution_s':round(o['sexec_s'],2)} for o in res],
      'functions_encoded':sorted(set(demangle([f for o in res for f in o['fns']]))),'external_functions_abstracted':sorted(set(f for o in res for f in o['externs'])),
      'obligations':len(goals),'discharged':len(dis),'queries':len(qs),'feasibility_queries':sum(o['feas'] for o in res),'solver_seconds':round(sum(x['secs'] for x in qs),2),
      'traces_validated_against_impl':sum(o['valid'] for o in res),'reachability_witnesses':sum(o['witness'] for o in res)+sum(1 for x in qs if 'reachable:' in x['goal'] and x['status']=='sat'),
      'encoding_mismatches':len(mism),'slowest':sorted(qs,key=lambda x:-x['secs'])[:8],'samples':[{'goal':x['goal'],'result':x['status'],'solver':x['solver'],'secs':x['secs']} for x in goals[:40]],
      'known_findings_seen':{k:w[:3] for k,w in kf.items()},'inconclusive':incon[:20]}}
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    for i,v in enumerate(viol[:10]):
        rp=os.path.join(VERIF,'evidence','replay-%s-%d.txt'%(pid,i)); v['path']=rp
        open(rp,'w').write('property %s\ngoal: %s\nwhere: %s\nrounding: %s\ninput bits: %s\nobserved output bits: %s\n%s\n%s\n\n// harness (compile with -I/repo/include, configuration %s):\n%s%s'%(pid,v['goal'],v['where'],v['rounding'],v['inputs'],v['outputs'],v['how'],v['extra'],v['cfg'],build.INC,v['harness']))
    ev['coverage']['violations_found']=[{k:x for k,x in v.items() if k!='harness'} for v in viol[:10]]
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1)
    print('%s: %d/%d goals discharged, %d queries, %.0fs solver, %d concrete runs compared, %.0fs'%(pid,len(dis),len(goals),len(qs),sum(x['secs'] for x in qs),sum(o['valid'] for o in res),time.time()-t0))
    if os.environ.get('V'):
        for x in sorted(qs,key=lambda x:-x['secs'])[:int(os.environ['V'])]: print('  %6.2f %-6s %-6s %s'%(x['secs'],x['status'],x['solver'],x['goal']))
        for o in res:
            if o['sexec_s']>5: print('  sexec %s %s %.1fs'%(o['task'],o['cfg'],o['sexec_s']))
            if 'tb' in o and int(os.environ['V'])>50: print(o['tb'])
    for m in mism[:8]: print('MISMATCH',m)
    for x in incon[:6]: print('INCONCLUSIVE',x[:600])
    for v in viol[:6]:
        print('  %s at %s: inputs %s outputs %s (%s) %s'%(v['goal'],v['where'],v['inputs'],v['outputs'],v['how'],v['extra'][:200]))
    if viol:
        print('VIOLATION property=%s replay=%s'%(pid,viol[0]['path'])); return 1
    if incon or mism: return 2
    if len(dis)!=len(goals) or not goals: print('INCONCLUSIVE some goals are not discharged'); return 2
    return 0
COMMON_ASSUME=['clang 18 translates C++ to LLVM IR correctly (-O2, no fast-math, no contraction); g++ selects the same branches as the gcc configuration',
 'the symbolic executor and its SMT printing are trusted; every run compares them with the compiled code on concrete inputs',
 'z3 and cvc5 answers unsat are trusted','FP arithmetic of the target is IEEE 754 in the modelled rounding mode, no FTZ/DAZ']
def demangle(ns):
    import subprocess
    if not ns: return []
    o=subprocess.run(['c++filt'],input='\n'.join(ns),capture_output=True,text=True).stdout.splitlines()
    return [x[:160] for x in o]
