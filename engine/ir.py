"""Parser for the textual LLVM 18 IR that clang -S -emit-llvm writes (the subset C++ leaf code needs)."""
import re,struct
class Ty:
    __slots__=('k','n','el','els','packed','name')
    def __init__(s,k,n=0,el=None,els=None,packed=False,name=None): s.k=k; s.n=n; s.el=el; s.els=els; s.packed=packed; s.name=name
    def __repr__(s):
        if s.k=='int': return 'i%d'%s.n
        if s.k=='fp': return {16:'half',32:'float',64:'double',80:'x86_fp80',128:'fp128'}[s.n]
        if s.k in('arr','vec'): return ('[%d x %r]' if s.k=='arr' else '<%d x %r>')%(s.n,s.el)
        if s.k=='struct': return '{'+', '.join(map(repr,s.els))+'}'
        return s.k if s.name is None else s.name
FPT={'half':16,'float':32,'double':64,'x86_fp80':80,'fp128':128}
TOK=re.compile(r'''\s*(?:;[^\n]*)?(?:
 (?P<str>c?"(?:[^"\\]|\\.)*") | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
 (?P<meta>![-a-zA-Z$._0-9]*(?:"[^"]*")?) | (?P<attr>\#\d+) | (?P<num>0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+) |
 (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*) | (?P<p>\.\.\.|[][(){}<>,=*:|^]) )''',re.X)
def tokenize(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' or s[i:].lstrip().startswith(';'): break
            raise Exception('token: '+s[i:i+60])
        i=m.end(); out.append((m.lastgroup,m.group(m.lastgroup)))
    return out
class TS:
    def __init__(s,toks): s.t=toks; s.i=0
    def peek(s,k=0): return s.t[s.i+k][1] if s.i+k<len(s.t) else None
    def kind(s,k=0): return s.t[s.i+k][0] if s.i+k<len(s.t) else None
    def next(s): v=s.t[s.i][1]; s.i+=1; return v
    def accept(s,v):
        if s.peek()==v and s.kind()!='str': s.i+=1; return True
        return False
    def expect(s,v):
        x=s.next()
        if x!=v: raise Exception('expected %s got %s in %s'%(v,x,' '.join(t[1] for t in s.t[max(0,s.i-12):s.i+8])))
class Inst:
    __slots__=('op','dst','ty','a','x','line')
class Fn:
    def __init__(s,name): s.name=name; s.params=[]; s.ret=None; s.blocks={}; s.order=[]; s.decl=True; s.rpo=None
class Module:
    def __init__(s): s.types={}; s.globals={}; s.fns={}; s.aliases={}
def int_from_c(tok):
    return int(tok)
def fp_const(tok,n):
    if tok.startswith('0xK'): return int(tok[3:],16)
    if tok.startswith('0xH'): return int(tok[3:],16)
    if tok.startswith('0x'):
        b=int(tok[2:],16)
        if n==64: return b
        if n==32:
            # float constants are printed as doubles
            import softfloat as sf
            s,e,m=sf.fields(b,64)
            if e==2047 and m: return (s<<31)|0x7f800000|(m>>29)
            return sf.cvt(b,64,32,0)
        raise Exception('fp const')
    d=struct.unpack('<Q',struct.pack('<d',float(tok)))[0]
    if n==64: return d
    import softfloat as sf
    if n==32: return sf.cvt(d,64,32,0)
    raise Exception('fp const '+tok)
PATTR={'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly','readnone','returned','nofree','immarg','nest','swiftself','noext','local_unnamed_addr','unnamed_addr','dead_on_unwind','writable','nocallback','allocptr'}
class Parser:
    def __init__(s,text):
        s.m=Module(); s.parse(text)
    def type(s,ts):
        k=ts.kind(); v=ts.next()
        if k=='loc': t=Ty('named',name=v)
        elif v=='ptr':
            t=Ty('ptr')
            if ts.accept('addrspace'): ts.expect('('); ts.next(); ts.expect(')')
        elif v=='void': t=Ty('void')
        elif v in FPT: t=Ty('fp',FPT[v])
        elif re.fullmatch(r'i\d+',v): t=Ty('int',int(v[1:]))
        elif v in('metadata','label','token','opaque'): t=Ty(v)
        elif v=='[': n=int(ts.next()); ts.expect('x'); e=s.type(ts); ts.expect(']'); t=Ty('arr',n,e)
        elif v=='<':
            if ts.peek()=='{':
                ts.next(); els=[]
                while not ts.accept('}'):
                    els.append(s.type(ts)); ts.accept(',')
                ts.expect('>'); t=Ty('struct',els=els,packed=True)
            else: n=int(ts.next()); ts.expect('x'); e=s.type(ts); ts.expect('>'); t=Ty('vec',n,e)
        elif v=='{':
            els=[]
            while not ts.accept('}'):
                els.append(s.type(ts)); ts.accept(',')
            t=Ty('struct',els=els)
        else: raise Exception('type '+v+' near '+' '.join(x[1] for x in ts.t[max(0,ts.i-10):ts.i+5]))
        while ts.peek()=='*': ts.next(); t=Ty('ptr')
        if ts.peek()=='(' and t.k!='ptr0' and s._fnty(ts):
            # function type: ret (args)
            ts.expect('(')
            d=1
            while d:
                x=ts.next()
                if x=='(': d+=1
                elif x==')': d-=1
            t=Ty('fn',el=t)
        return t
    def _fnty(s,ts):
        return getattr(s,'allow_fnty',False)
    def res(s,t):
        while t.k=='named': t=s.m.types[t.name]
        return t
    # ---- layout
    def size(s,t):
        t=s.res(t)
        if t.k=='int': return {1:1}.get(t.n,(t.n+7)//8) if t.n<=64 else (16 if t.n<=128 else ((t.n+63)//64)*8)
        if t.k=='fp': return {16:2,32:4,64:8,80:16,128:16}[t.n]
        if t.k=='ptr': return 8
        if t.k=='arr': return t.n*s.size(t.el)
        if t.k=='vec': return t.n*s.size(t.el) if t.el.k!='int' or t.el.n>=8 else (t.n+7)//8
        if t.k=='struct':
            return s.layout(t)[1]
        raise Exception('size '+repr(t))
    def align(s,t):
        t=s.res(t)
        if t.k=='int': return min(16,1<<max(0,((t.n+7)//8-1).bit_length()))
        if t.k=='fp': return {16:2,32:4,64:8,80:16,128:16}[t.n]
        if t.k=='ptr': return 8
        if t.k=='arr': return s.align(t.el)
        if t.k=='vec': return s.size(t)
        if t.k=='struct': return 1 if t.packed else max([s.align(e) for e in t.els] or [1])
        raise Exception('align')
    def layout(s,t):
        off=0; offs=[]
        for e in t.els:
            a=1 if t.packed else s.align(e); off=(off+a-1)//a*a; offs.append(off); off+=s.size(e)
        a=s.align(t); return offs,(off+a-1)//a*a
    # ---- values
    def const(s,ts,ty):
        """operand of the given type -> tuple tree"""
        k=ts.kind(); v=ts.next(); rt=s.res(ty)
        if k=='loc': return ('reg',v)
        if k=='glo': return ('glo',v[1:].strip('"'))
        if k=='num':
            if rt.k=='fp': return ('fp',fp_const(v,rt.n),rt.n)
            return ('int',int(v,0) if v.startswith('0x') else int(v))
        if v in('true','false'): return ('int',1 if v=='true' else 0)
        if v in('null','none'): return ('null',)
        if v in('undef','poison'): return (v,)
        if v=='zeroinitializer': return ('zero',)
        if k=='str': # c"..."
            b=v[2:-1]; out=[]; i=0
            while i<len(b):
                if b[i]=='\\': 
                    if b[i+1]=='\\': out.append(92); i+=2
                    else: out.append(int(b[i+1:i+3],16)); i+=3
                else: out.append(ord(b[i])); i+=1
            return ('agg',[('int',x) for x in out])
        if v=='[' or v=='{' or v=='<':
            packed=False
            if v=='<' and ts.peek()=='{': ts.next(); packed=True; close='}'
            else: close={'[':']','{':'}','<':'>'}[v]
            els=[]
            while not ts.accept(close):
                t=s.type(ts); els.append(s.const(ts,t)); ts.accept(',')
            if packed: ts.expect('>')
            return ('agg',els)
        if v=='getelementptr':
            inb=False
            while ts.peek() in('inbounds','nuw','nusw'): ts.next()
            ts.expect('('); bt=s.type(ts); ts.expect(','); ops=[]
            while True:
                if ts.accept('inrange'): 
                    pass
                t=s.type(ts); ops.append((t,s.const(ts,t)))
                if not ts.accept(','): break
            ts.expect(')'); return ('gep',bt,ops)
        if v in('bitcast','ptrtoint','inttoptr','trunc','zext','sext','addrspacecast'):
            ts.expect('('); t=s.type(ts); c=s.const(ts,t); ts.expect('to'); t2=s.type(ts); ts.expect(')'); return ('cast',v,t,c,t2)
        if v in('add','sub','and','or','xor','shl','lshr','mul'):
            while ts.peek() in('nuw','nsw'): ts.next()
            ts.expect('('); t=s.type(ts); a=s.const(ts,t); ts.expect(','); t2=s.type(ts); b=s.const(ts,t2); ts.expect(')'); return ('cbin',v,t,a,b)
        if k=='meta': return ('meta',v)
        raise Exception('const '+v+' near '+' '.join(x[1] for x in ts.t[max(0,ts.i-10):ts.i+5]))
    def skip_attrs(s,ts):
        out={}
        while True:
            v=ts.peek()
            if v is None: break
            if v in PATTR: ts.next()
            elif v in('align','dereferenceable','dereferenceable_or_null','byval','sret','byref','inalloca','elementtype','memory','range','initializes','captures','nofpclass','preallocated'):
                ts.next()
                if ts.peek()=='(':
                    d=0; st=ts.i
                    while True:
                        x=ts.next()
                        if x=='(': d+=1
                        elif x==')':
                            d-=1
                            if d==0: break
                    if v in('byval','sret'):
                        out[v]=s.type(TS(ts.t[st+1:ts.i-1]))
                else: ts.next()
            elif ts.kind()=='attr': ts.next()
            elif ts.kind()=='str' and ts.peek().startswith('"'):
                ts.next()
                if ts.accept('='): ts.next()
            else: break
        return out
    def parse(s,text):
        lines=text.split('\n'); i=0; n=len(lines)
        gl=[]; fns=[]
        while i<n:
            l=lines[i]
            if l.startswith('define '):
                j=i+1
                while lines[j]!='}': j+=1
                fns.append((l,lines[i+1:j])); i=j+1; continue
            if l.startswith('declare '): s.decl(l)
            elif l.startswith('%') and ' = type ' in l:
                nm,r=l.split(' = type ',1)
                ts=TS(tokenize(r)); s.m.types[nm]=s.type(ts) if r.strip()!='opaque' else Ty('struct',els=[])
            elif l.startswith('@'): gl.append(l)
            i+=1
        for l in gl: s.glob(l)
        for h,b in fns: s.fn(h,b)
    def glob(s,l):
        ts=TS(tokenize(l)); name=ts.next()[1:].strip('"'); ts.expect('=')
        const=False; ext=False
        while True:
            v=ts.peek()
            if v in('constant','global'): const=(v=='constant'); ts.next(); break
            if v=='external' or v=='extern_weak': ext=True
            if v=='alias':
                ts.next(); t=s.type(ts); ts.expect(','); t=s.type(ts); s.m.aliases[name]=s.const(ts,t); return
            if v=='comdat' : ts.next(); continue
            ts.next()
            if v in('thread_local','section','partition') and ts.peek()=='(':
                while ts.next()!=')': pass
        t=s.type(ts); init=None
        if not ext and ts.peek() not in(None,','): init=s.const(ts,t)
        s.m.globals[name]=(t,init,const)
    def header(s,l):
        # returns name, ret type, params[(ty,name,attrs)], vararg
        l=l.split(' ',1)[1]
        ts=TS(tokenize(l))
        while ts.peek() in('dso_local','linkonce_odr','internal','weak_odr','private','available_externally','hidden','weak','external','local_unnamed_addr','unnamed_addr','fastcc','ccc','dso_preemptable','protected','linkonce','coldcc','spir_func') or ts.peek() in PATTR or (ts.peek() in('align','dereferenceable','range','nofpclass')):
            if ts.peek() in('align','dereferenceable','range','nofpclass'): s.skip_attrs(ts)
            else: ts.next()
        ret=s.type(ts)
        name=ts.next()[1:].strip('"'); ts.expect('(')
        ps=[]; va=False
        while not ts.accept(')'):
            if ts.accept('...'): va=True
            else:
                t=s.type(ts); at=s.skip_attrs(ts); nm=None
                if ts.kind()=='loc': nm=ts.next()
                ps.append((t,nm,at))
            ts.accept(',')
        return name,ret,ps,va
    def decl(s,l):
        name,ret,ps,va=s.header(l)
        f=Fn(name); f.ret=ret; f.params=ps; s.m.fns.setdefault(name,f)
    def fn(s,h,body):
        name,ret,ps,va=s.header(h)
        f=Fn(name); f.ret=ret; f.decl=False
        num=0; f.params=[]
        for t,nm,at in ps:
            if nm is None: nm='%%%d'%num
            if re.fullmatch(r'%\d+',nm): num=int(nm[1:])+1
            f.params.append((t,nm,at))
        cur=None; k=0
        while k<len(body):
            l=body[k]; k+=1
            if not l.strip() or l.lstrip().startswith(';'): continue
            m=re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):',l)
            if m:
                cur='%'+m.group(1).strip('"') if not m.group(1).startswith('"') else '%'+m.group(1)
                f.blocks[cur]=[]; f.order.append(cur); continue
            if cur is None:
                cur='%%%d'%num; f.blocks[cur]=[]; f.order.append(cur)
            # join multi-line instructions
            st=l
            if ' switch ' in l or l.lstrip().startswith('switch '):
                while ']' not in body[k-1].split(';')[0] or body[k-1].rstrip().endswith('['):
                    st+=' '+body[k]; k+=1
                    if body[k-1].strip().startswith(']'): break
            elif ' invoke ' in l or l.lstrip().startswith('invoke '):
                while ' unwind label' not in st: st+=' '+body[k]; k+=1
            elif 'landingpad' in l:
                while k<len(body) and re.match(r'\s+(catch|filter|cleanup)\b',body[k]): st+=' '+body[k]; k+=1
            f.blocks[cur].append(st)
        f.raw=True; f.parsed={}
        s.m.fns[name]=f
    def block(s,f,b):
        if b not in f.parsed: f.parsed[b]=[s.inst(l) for l in f.blocks[b]]
        return f.parsed[b]
    def val(s,ts):
        t=s.type(ts); s.skip_attrs(ts); return (t,s.const(ts,t))
    def inst(s,l):
        # drop metadata attachments
        l0=l
        ts=TS(tokenize(l)); I=Inst(); I.dst=None; I.line=l0.strip(); I.x=None; I.ty=None; I.a=None
        if ts.kind()=='loc' and ts.peek(1)=='=': I.dst=ts.next(); ts.next()
        op=ts.next()
        if op in('tail','musttail','notail'): op=ts.next()
        I.op=op
        if op in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'):
            fl=[]
            while ts.peek() in('nuw','nsw','exact','disjoint','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'): fl.append(ts.next())
            I.x=fl; I.ty=s.type(ts); a=s.const(ts,I.ty); ts.expect(','); I.a=[a,s.const(ts,I.ty)]
        elif op=='fneg':
            while ts.peek() in('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'): ts.next()
            I.ty=s.type(ts); I.a=[s.const(ts,I.ty)]
        elif op in('icmp','fcmp'):
            while ts.peek() in('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','samesign'): ts.next()
            I.x=ts.next(); I.ty=s.type(ts); a=s.const(ts,I.ty); ts.expect(','); I.a=[a,s.const(ts,I.ty)]
        elif op in('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            while ts.peek() in('nneg','nuw','nsw'): ts.next()
            t,a=s.val(ts); ts.expect('to'); I.ty=s.type(ts); I.x=t; I.a=[a]
        elif op=='select':
            while ts.peek() in('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'): ts.next()
            c=s.val(ts); ts.expect(','); a=s.val(ts); ts.expect(','); b=s.val(ts); I.ty=a[0]; I.a=[c,a[1],b[1]]
        elif op=='freeze': t,a=s.val(ts); I.ty=t; I.a=[a]
        elif op=='phi':
            while ts.peek() in('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'): ts.next()
            I.ty=s.type(ts); I.a=[]
            while True:
                ts.expect('['); v=s.const(ts,I.ty); ts.expect(','); b=ts.next(); ts.expect(']'); I.a.append((b,v))
                if not ts.accept(','): break
                if ts.peek()!='[': break
        elif op=='br':
            if ts.accept('label'): I.a=[ts.next()]
            else:
                t,c=s.val(ts); ts.expect(','); ts.expect('label'); x=ts.next(); ts.expect(','); ts.expect('label'); y=ts.next(); I.a=[c,x,y]
        elif op=='switch':
            t,c=s.val(ts); ts.expect(','); ts.expect('label'); d=ts.next(); ts.expect('['); cs=[]
            while not ts.accept(']'):
                t2,v=s.val(ts); ts.expect(','); ts.expect('label'); cs.append((v[1],ts.next()))
            I.ty=t; I.a=[c,d,cs]
        elif op=='ret':
            if ts.accept('void'): I.a=None
            else: I.a=s.val(ts)
        elif op in('unreachable','resume'): pass
        elif op=='alloca':
            ts.accept('inalloca'); I.ty=s.type(ts); I.a=None
            while ts.accept(','):
                if ts.accept('align'): ts.next()
                elif ts.peek() is not None and ts.kind()!='meta': I.a=s.val(ts)
                else: break
        elif op=='load':
            ts.accept('volatile'); I.ty=s.type(ts); ts.expect(','); I.a=[s.val(ts)[1]]
        elif op=='store':
            ts.accept('volatile'); v=s.val(ts); ts.expect(','); p=s.val(ts); I.ty=v[0]; I.a=[v[1],p[1]]
        elif op=='getelementptr':
            while ts.peek() in('inbounds','nuw','nusw'): ts.next()
            I.ty=s.type(ts); ts.expect(','); ops=[s.val(ts)]
            while ts.accept(','):
                if ts.kind()=='meta': break
                ops.append(s.val(ts))
            I.a=ops
        elif op=='extractvalue':
            t,v=s.val(ts); idx=[]
            while ts.accept(','):
                if ts.kind()=='meta': break
                idx.append(int(ts.next()))
            I.ty=t; I.a=[v]; I.x=idx
        elif op=='insertvalue':
            t,v=s.val(ts); ts.expect(','); e=s.val(ts); idx=[]
            while ts.accept(','):
                if ts.kind()=='meta': break
                idx.append(int(ts.next()))
            I.ty=t; I.a=[v,e]; I.x=idx
        elif op=='extractelement': v=s.val(ts); ts.expect(','); i=s.val(ts); I.ty=v[0]; I.a=[v[1],i]
        elif op=='insertelement': v=s.val(ts); ts.expect(','); e=s.val(ts); ts.expect(','); i=s.val(ts); I.ty=v[0]; I.a=[v[1],e,i]
        elif op=='shufflevector': v=s.val(ts); ts.expect(','); w=s.val(ts); ts.expect(','); m=s.val(ts); I.ty=v[0]; I.a=[v[1],w[1],m]
        elif op in('call','invoke'):
            while ts.peek() in('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','fastcc','coldcc','ccc'): ts.next()
            s.skip_attrs(ts)
            s.allow_fnty=False
            I.ty=s.type(ts)
            if ts.peek()=='(' and ts.kind(1)!='loc' or (ts.peek()=='('):
                # function type given explicitly (varargs)
                d=0
                while True:
                    x=ts.next()
                    if x=='(': d+=1
                    elif x==')':
                        d-=1
                        if d==0: break
            k=ts.kind(); callee=ts.next()
            if callee=='asm':
                I.x=('asm',l0); return I
            I.x=('glo',callee[1:].strip('"')) if k=='glo' else ('reg',callee)
            ts.expect('('); args=[]
            while not ts.accept(')'):
                t=s.type(ts); at=s.skip_attrs(ts)
                if t.k=='metadata':
                    # metadata operand: keep the text
                    d=0; txt=[]
                    while True:
                        p=ts.peek()
                        if d==0 and p in(',',')'): break
                        if p=='(' : d+=1
                        if p==')': d-=1
                        txt.append(ts.next())
                    args.append((t,('meta',' '.join(txt)),at))
                else: args.append((t,s.const(ts,t),at))
                ts.accept(',')
            I.a=args
            if op=='invoke':
                while ts.peek()!='to': ts.next()
                ts.expect('to'); ts.expect('label'); I.line=(I.line,ts.next())
        elif op=='landingpad': pass
        elif op=='fence': pass
        elif op=='va_arg': raise Exception('va_arg')
        else: raise Exception('inst '+l0)
        return I
def parse_file(p): return Parser(open(p).read())
