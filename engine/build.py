"""Lowering of /repo's current headers: wrappers around public functions are compiled to LLVM IR (for the symbolic
executor) and to shared objects (for replay and for validating the executor), in three configurations:
  ct   clang, every 'is constant evaluated' question answered yes: the code behind constexpr evaluation
  rt   clang, run-time path
  gcc  clang with the GCC predefines, run-time path: the branches that #if selects for g++
"""
import os,subprocess,tempfile,shutil,atexit,hashlib,ctypes,threading
import ir
REPO=os.environ.get('CCM_REPO','/repo')
_scratch=None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch=tempfile.mkdtemp(prefix='ccmv-'); atexit.register(lambda d=_scratch,p=os.getpid(): os.getpid()==p and shutil.rmtree(d,ignore_errors=True))
    return _scratch
PRE=''.join('#include <%s>\n'%h for h in 'algorithm array bit bitset cassert cerrno cfenv cfloat climits cmath complex cstddef cstdint cstdio cstdlib cstring functional initializer_list iosfwd iterator limits numeric optional string string_view tuple type_traits utility immintrin.h wchar.h'.split())
GCC=PRE+'#undef __clang__\n#undef __clang_major__\n#undef __clang_minor__\n#undef __GNUC__\n#undef __GNUC_MINOR__\n#define __GNUC__ 13\n#define __GNUC_MINOR__ 3\n'
DEFS=['-DCCM_CONFIG_HAS_BUILTIN_BIT_CAST','-DCCM_CONFIG_HAS_BUILTIN_FMA','-DCCM_CONFIG_HAS_BUILTIN_FMA_CONSTEXPR','-DCCM_CONFIG_USE_RT_SIMD']
def flags(cfg,std='17'):
    f=['-std=c++'+std,'-I',os.path.join(REPO,'include'),'-w']+DEFS
    if 'ct' in cfg.split('+'): f.append('-D__builtin_is_constant_evaluated()=true')
    for x in cfg.split('+'):
        if x.startswith('D:'): f.append('-D'+x[2:])
        if x.startswith('m:'): f.append('-m'+x[2:])
        if x.startswith('U:'): f=[q for q in f if not q.startswith('-D'+x[2:])]
    if 'no128' in cfg.split('+'): f.append('-mlong-double-64')
    return f
class CompileError(Exception): pass
def sh(cmd,**kw):
    r=subprocess.run(cmd,capture_output=True,text=True,**kw)
    if r.returncode: raise CompileError(' '.join(cmd)[-300:]+'\n'+r.stderr[-4000:])
    return r.stdout
CT={'double':(64,'double'),'float':(32,'float'),'long double':(80,'long double'),'int':(32,'int'),'long':(64,'long'),'long long':(64,'long long'),
    'unsigned':(32,'unsigned'),'unsigned long':(64,'unsigned long'),'unsigned long long':(64,'unsigned long long'),'bool':(8,'bool'),'short':(16,'short'),'unsigned short':(16,'unsigned short'),
    'signed char':(8,'signed char'),'unsigned char':(8,'unsigned char'),'char':(8,'char')}
BYTES={'double':8,'float':4,'long double':10,'int':4,'long':8,'long long':8,'unsigned':4,'unsigned long':8,'unsigned long long':8,'bool':1,'short':2,'unsigned short':2,'signed char':1,'unsigned char':1,'char':1}
def split(decl):
    out=[]
    for d in decl.split(','):
        d=d.strip()
        if d: t,n=d.rsplit(' ',1); out.append((t.strip(),n.strip()))
    return out
class H:
    """harness: inputs, outputs, body (C++ statements that set the outputs)"""
    def __init__(s,name,ins,outs,body,pre=''):
        s.name=name; s.ins=split(ins); s.outs=split(outs); s.body=body; s.pre=pre
    def src(s):
        ps=['%s %s'%(t,n) for t,n in s.ins]+['%s* %s_'%(t,n) for t,n in s.outs]
        r='extern "C" __attribute__((noinline)) void h_%s(%s){ %s %s %s }\n'%(s.name,', '.join(ps),' '.join('%s %s{};'%(t,n) for t,n in s.outs),s.body,' '.join('*%s_=%s;'%(n,n) for t,n in s.outs))
        return s.pre+'\n'+r
    def shim(s):
        b=''
        for i,(t,n) in enumerate(s.ins): b+='%s %s; __builtin_memcpy((void*)&%s,in+%d,%d);'%(t,n,n,16*i,BYTES[t])
        for i,(t,n) in enumerate(s.outs): b+='%s %s{};'%(t,n)
        b+='int old=fegetround(); fesetround(rm==0?FE_TONEAREST:rm==1?FE_DOWNWARD:rm==2?FE_UPWARD:FE_TOWARDZERO); h_%s(%s); fesetround(old);'%(s.name,', '.join([n for t,n in s.ins]+['&'+n for t,n in s.outs]))
        for i,(t,n) in enumerate(s.outs): b+='__builtin_memset(out+%d,0,16); __builtin_memcpy(out+%d,(void*)&%s,%d);'%(16*i,16*i,n,BYTES[t])
        return 'extern "C" void n_%s(const unsigned char*in,unsigned char*out,int rm){%s}\n'%(s.name,b)
INC='#include <cfenv>\n#include <cstdint>\n#include <cerrno>\n#include <ccmath/ccmath.hpp>\n'
EXT=''.join('#include <ccmath/ext/%s>\n'%f for f in sorted(os.listdir(os.path.join(REPO,'include','ccmath','ext'))) if f.endswith('.hpp'))
# nb: the bit utilities as compilers without __has_builtin (MSVC) see them
NB=PRE+'#include "ccmath/internal/predef/has_builtin.hpp"\n#undef CCM_HAS_BUILTIN\n#define CCM_HAS_BUILTIN(b) (0)\n#include "ccmath/internal/support/bits.hpp"\n'
NO128=PRE+'#undef __SIZEOF_INT128__\n'
def portable():
    """the fallbacks for compilers without usable builtins: the detection headers are read with no compiler identified"""
    d=os.path.join(REPO,'include','ccmath','internal','math','generic','builtins'); o=''; pre=set()
    import re
    for r,_,fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith('.hpp') and f!='builtin_helpers.hpp':
                o+='#include "%s"\n'%os.path.join(r,f)
                pre|=set(x for x in re.findall(r'#include ["<](ccmath/[^">]+)',open(os.path.join(r,f)).read()) if '/builtins/' not in x or 'builtin_helpers' in x)
    m=['__clang__','__clang_major__','__clang_minor__','__GNUC__','__GNUC_MINOR__']
    return PRE+''.join('#include <%s>\n'%x for x in sorted(pre))+''.join('#pragma push_macro("%s")\n#undef %s\n'%(x,x) for x in m)+o+''.join('#pragma pop_macro("%s")\n'%x for x in m)
def gccsqrt():
    """square roots through the builtin a GCC constant evaluation uses (P01 covers the library's own root)"""
    import re
    d=os.path.join(REPO,'include','ccmath','internal','math','generic','builtins','power','sqrt.hpp')
    pre=sorted(x for x in re.findall(r'#include ["<](ccmath/[^">]+)',open(d).read()))
    m=['__clang__','__clang_major__','__clang_minor__','__GNUC__','__GNUC_MINOR__']
    return PRE+''.join('#include <%s>\n'%x for x in pre if 'builtin_helpers' not in x)+''.join('#pragma push_macro("%s")\n#undef %s\n'%(x,x) for x in m)+'#define __GNUC__ 13\n#define __GNUC_MINOR__ 3\n'+'#include "%s"\n'%d+''.join('#pragma pop_macro("%s")\n'%x for x in m)
class Unit:
    """one translation unit in one configuration"""
    def __init__(s,hs,cfg,opt='-O2',extra='',std='17',sanitize=False,target=()):
        s.hs={h.name:h for h in hs}; s.cfg=cfg; s.opt=opt; s.extra=extra; s.std=std; s.sanitize=sanitize; s.target=list(target)
        s._ll=None; s._lib=None; s.lock=threading.Lock()
    def text(s,shims=False):
        t=(GCC if 'gcc' in s.cfg.split('+') and shims!='g++' else portable() if 'pt' in s.cfg.split('+') else gccsqrt() if 'sq' in s.cfg.split('+') else NB if 'nb' in s.cfg.split('+') else NO128 if 'no128' in s.cfg.split('+') else '')+INC+s.extra+'\n'+''.join(h.src() for h in s.hs.values())
        if shims: t+='#pragma STDC FENV_ACCESS ON\n'*0+''.join(h.shim() for h in s.hs.values())
        return t
    def key(s,*a): return hashlib.sha1(repr((s.text(),s.cfg,s.opt,s.std,s.sanitize,s.target)+a).encode()).hexdigest()[:16]
    def ll(s):
        with s.lock:
            if s._ll is None:
                p=os.path.join(scratch(),s.key()); src=p+'.cpp'; open(src,'w').write(s.text())
                f=flags(s.cfg,s.std)+[s.opt,'-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fno-math-errno','-frounding-math' if 0 else '-fno-unroll-loops','-fno-exceptions' if 0 else '-fexceptions']+s.target
                f=[x for x in f if x!='-fno-math-errno']
                if s.sanitize: f+=['-fsanitize=undefined','-fno-sanitize=vptr,function,alignment,object-size,null,nonnull-attribute','-fsanitize-trap=all']
                sh(['clang++','-S','-emit-llvm','-g0']+f+['-o',p+'.ll',src])
                s._ll=ir.parse_file(p+'.ll')
            return s._ll
    def lib(s,cxx=None):
        with s.lock:
            if s._lib is None:
                cxx=cxx or ('g++' if 'gcc' in s.cfg.split('+') else 'clang++')
                p=os.path.join(scratch(),s.key('n',cxx)); src=p+'.n.cpp'; open(src,'w').write(s.text('g++' if cxx=='g++' else True))
                f=flags(s.cfg,s.std)+['-O2','-ffp-contract=off','-fPIC','-shared']+s.target
                if 'ct' not in s.cfg.split('+'): f.append('-frounding-math')
                sh([cxx]+f+['-o',p+'.so',src])
                s._lib=ctypes.CDLL(p+'.so')
            return s._lib
    def native(s,name,vals,rm=0,isolate=True):
        """run the compiled wrapper on concrete input bits; returns output bits (dict) or None if it crashed"""
        h=s.hs[name]; L=s.lib()
        def go():
            n=len(h.ins); i=ctypes.create_string_buffer(16*max(1,n)); o=ctypes.create_string_buffer(16*max(1,len(h.outs)))
            for k,(t,nm) in enumerate(h.ins): i.raw=i.raw[:16*k]+int(vals[nm]).to_bytes(16,'little')+i.raw[16*k+16:]
            getattr(L,'n_'+name)(i,o,rm)
            return {nm:int.from_bytes(o.raw[16*k:16*k+BYTES[t]],'little') for k,(t,nm) in enumerate(h.outs)}
        if not isolate: return go()
        r,w=os.pipe(); pid=os.fork()
        if pid==0:
            try:
                import signal; signal.alarm(10)
                os.write(w,repr(go()).encode())
            finally: os._exit(0)
        os.close(w); b=b''
        while True:
            x=os.read(r,65536)
            if not x: break
            b+=x
        os.close(r); _,stt=os.waitpid(pid,0)
        return eval(b.decode()) if b and stt==0 else None
def lit(t,v):
    """C++ constant expression with exactly these bits"""
    if t=='double': return '__builtin_bit_cast(double,0x%xull)'%v
    if t=='float': return '__builtin_bit_cast(float,0x%xu)'%v
    if t=='long double':
        # no bit cast for padding types: build from the fields
        s,e,m=v>>79,(v>>64)&0x7fff,v&((1<<64)-1)
        if e==0x7fff: r='__builtin_infl()' if not(m<<1)&((1<<64)-1) else '__builtin_nanl("")'
        else:
            r='0x%xp%dL'%(m,max(e,1)-16383-63)
        return ('-' if s else '')+r
    if t=='bool': return 'true' if v else 'false'
    w=CT[t][0]
    if t.startswith('unsigned'): return '(%s)0x%xull'%(t,v)
    return '(%s)0x%xull'%(t,v)
def constexpr_eval(h,vals,cxx='clang++',defs=(),extra='',cfg='rt',std='17'):
    """evaluate the harness body in a genuine constant expression; returns outputs or an error string"""
    d=os.path.join(scratch(),hashlib.sha1(repr((h.src(),vals,cxx,os.getpid(),threading.get_ident(),os.urandom(4))).encode()).hexdigest()[:16]+'.ce')
    os_=h.outs
    st='struct R_{%s};'%' '.join('%s %s{};'%o for o in os_)
    fn='constexpr R_ e_(%s){ R_ q_; %s %s %s return q_; }'%(', '.join('%s %s'%p for p in h.ins),' '.join('%s %s{};'%o for o in os_),h.body,' '.join('q_.%s=%s;'%(n,n) for t,n in os_))
    call='constexpr R_ r_=e_(%s);'%', '.join(lit(t,vals[n]) for t,n in h.ins)
    pr=''.join('{unsigned char b_[16]={}; __builtin_memcpy(b_,(const void*)&r_.%s,%d); for(int i=15;i>=0;--i)std::printf("%%02x",b_[i]); std::printf("\\n");}'%(n,BYTES[t]) for t,n in os_)
    txt=(portable() if 'pt' in cfg.split('+') else gccsqrt() if 'sq' in cfg.split('+') else NB if 'nb' in cfg.split('+') else NO128 if 'no128' in cfg.split('+') else '')+INC+'#include <cstdio>\n'+extra+h.pre+'\n'+st+fn+call+'int main(){%s}\n'%pr
    open(d+'.cpp','w').write(txt)
    f=flags(cfg,std)+list(defs)+(['-fconstexpr-steps=100000000'] if 'clang' in cxx else [])
    try: sh([cxx]+f+['-O0','-o',d,d+'.cpp'])
    except CompileError as e: return 'not a constant expression: '+str(e)[-1500:]
    o=subprocess.run([d],capture_output=True,text=True).stdout.split()
    return {n:int(x,16) for (t,n),x in zip(os_,o)}
