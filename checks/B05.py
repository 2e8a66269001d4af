from check import *
def run():
    ts=[]
    QN={'d':(64,0x7ff8<<48,'double',''),'f':(32,0x7fc00000,'float','f'),'l':(80,(0x7fff<<64)|(3<<62),'long double','l')}
    for sx,(w,qn,ty,suf) in QN.items():
        N=24 if TIER=='quick' else 32
        ins=', '.join('unsigned long c%d'%k for k in range(N//8))
        pre='__attribute__((noinline)) static constexpr %s nan_of(const char*p){ return ccm::nan%s(p); }'%(ty,suf)
        if sx!='d': pre=pre.replace('nan_of','nan_of'+sx)
        body='char s[%d]={}; for(int i=0;i<8;++i){ %s } s[%d]=0; r=nan_of%s(s);'%(N+1,' '.join('s[%d+i]=(char)(c%d>>(8*i));'%(8*k,k) for k in range(N//8)),N,sx if sx!='d' else '')
        h=H('nan%s'%sx,ins,'%s r'%ty,body,pre=pre)
        def g(i,o,rm,w=w,qn=qn,N=N,sx=sx):
            r=o['r']; ch=[EXTRACT(i['c%d'%(k//8)],8*(k%8)+7,8*(k%8)) for k in range(N)]
            Q=C(qn,w)
            quiet=EQ(BAND(r,Q),Q)
            K=lambda c: C(ord(c),8)
            dg=lambda c: AND(ULE(K('0'),c),ULE(c,K('9')))
            hd=lambda c: OR(dg(c),AND(ULE(K('a'),c),ULE(c,K('f'))),AND(ULE(K('A'),c),ULE(c,K('F'))))
            hv=lambda c: ITE(dg(c),SUB(c,K('0')),ADD(BAND(c,C(7,8)),C(9,8)))
            out=[Goal('nan is a quiet NaN',AND(quiet,EQ(EXTRACT(r,w-1,w-1),C(0,1))))]
            # exact payload of short tags
            L=7 if sx=='f' else 15
            W={'f':32,'d':64,'l':128}[sx]
            v=C(0,W); done=FALSE; alld=TRUE
            for k in range(L+1):
                z=EQ(ch[k],C(0,8)) 
                done2=OR(done,z)
                if k<L:
                    v=ITE(done2,v,ADD(MUL(v,C(10,W)),ZEXT(SUB(ch[k],K('0')),W))); alld=AND(alld,OR(done2,dg(ch[k])))
                done=done2
            def subst(chars):
                chars=chars+[C(0,8)]; full=chars+[V('tail_%d'%k,8) for k in range(len(chars),N)]; r={}
                for k in range(N//8):
                    t=full[8*k]
                    for j in range(1,8): t=CONCAT(full[8*k+j],t)
                    r['c%d'%k]=t
                return r
            for l in range(1,L+1):
                out.append(Goal('decimal tags of %d digits give their value as payload'%l,EQ(r,BOR(Q,EXTRACT(v,w-1,0))),pre=AND(done,alld,NE(ch[0],C(0,8)),*[ULE(ch[j],K('9')) for j in range(l)]),sub=subst([CONCAT(C(3,4),V('dig_%d'%j,4)) for j in range(l)])))
            v=C(0,W); done=FALSE; alld=TRUE
            for k in range(2,2+L+1):
                z=EQ(ch[k],C(0,8)); done2=OR(done,z)
                if k<2+L:
                    v=ITE(done2,v,ADD(SHL(v,C(4,W)),ZEXT(hv(ch[k]),W))); alld=AND(alld,OR(done2,hd(ch[k])))
                done=done2
            out.append(Goal('hexadecimal tags of up to %d digits give their value as payload'%L,EQ(r,BOR(Q,EXTRACT(v,w-1,0))),pre=AND(done,alld,EQ(ch[0],K('0')),OR(EQ(ch[1],K('x')),EQ(ch[1],K('X'))))))
            # a tag with a character that is no digit is ignored
            bad=FALSE; done=FALSE
            for k in range(N):
                done=OR(done,EQ(ch[k],C(0,8)))
                bad=OR(bad,AND(NOT(done),NOT(dg(ch[k]))))
            pfx=AND(EQ(ch[0],K('0')),OR(EQ(ch[1],K('x')),EQ(ch[1],K('X'))))
            out.append(Goal('a tag with other characters gives the default NaN',EQ(r,Q),pre=AND(bad,NOT(pfx))))
            out.append(Goal('the empty tag gives the default NaN',EQ(r,Q),pre=EQ(ch[0],C(0,8))))
            return out
        def samples(n,N=N):
            r=random.Random(SEED); out=[]
            for s in ['','0','1','123','999999999999999','0x','0xff','0XABCDEF','12a','abc','0x12345678901234567890','123456789012345678901','-1','0x7fffffffffffff',' 1']+[''.join(r.choice('0123456789') for _ in range(r.randrange(0,N))) for _ in range(20)]+['0x'+''.join(r.choice('0123456789abcdefABCDEFg') for _ in range(r.randrange(0,N-2))) for _ in range(20)]:
                b=s.encode().ljust(N,b'\0')
                out.append({'c%d'%k:int.from_bytes(b[8*k:8*k+8],'little') for k in range(N//8)})
            return out
        add(ts,h,g,cfgs=('ct','rt') if sx!='l' else ('rt',),samples=samples)
    return main('B05',ts,'every NUL-terminated tag of up to %d bytes (all byte values); exact payloads for decimal and hexadecimal tags of up to 15 digits (float: 7)'%(24 if TIER=='quick' else 32))
