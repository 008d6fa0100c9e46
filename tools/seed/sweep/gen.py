import re,random,json,sys
R='/repo/src/'
MAP={
 'zk/aff_g.rs':'C13 C14 C30 C18','zk/aff_g_star.rs':'C13 C15 C30 C18','zk/dec.rs':'C13 C15 C30 C18','zk/elog.rs':'C13 C16 C30 C18','zk/enc_elg.rs':'C13 C14 C30 C18',
 'zk/fac.rs':'C13 C14 C30 C18','zk/mod_.rs':'C13 C17 C18 C30','zk/prm.rs':'C13 C17 C18 C30','zk/sch.rs':'C13 C16 C18 C30',
 'paillier/encryption.rs':'C19 C26 C13','paillier/keys.rs':'C20 C19 C28 C26 C29 C13','paillier/params.rs':'C20 C29 C19','paillier/ring_pedersen.rs':'C21 C20 C26 C13','paillier/rsa.rs':'C20 C28 C26 C19',
 'params/conversion.rs':'C24 C13','params/traits.rs':'C29 C24','params/dev.rs':'C29 C27','params/k256.rs':'C29 C27',
 'curve/arithmetic.rs':'C25 C26 C24 C07 C28','curve/bip32.rs':'C07','curve/ecdsa.rs':'C25',
 'uint/public_signed.rs':'C22 C23 C26 C24','uint/public_uint.rs':'C26 C22','uint/secret_signed.rs':'C22 C23 C24 C28 C13','uint/secret_unsigned.rs':'C22 C21 C28 C24','uint/traits.rs':'C21 C27 C22 C26 C20',
 'tools/bitvec.rs':'C27 C26','tools/hashing.rs':'C27 C26 C18','tools/secret.rs':'C28 C22 C25 C06','tools/sss.rs':'C06 C05 C31 C26',
 'entities/full.rs':'C04 C31 C06 C28 C12 C08','entities/threshold.rs':'C06 C07 C31 C05','entities/internal.rs':'C06',
 'protocols/key_init.rs':'C01 C02 C12 C10','protocols/aux_gen.rs':'C03 C12 C10 C11','protocols/key_refresh.rs':'C04 C12 C10 C11','protocols/key_resharing.rs':'C05 C11 C12','protocols/interactive_signing.rs':'C08 C09 C10 C12 C11',
}
RULES=[(r'&&','||'),(r'\|\|(?! *\{)(?=.*[^|]$)','&&'),(r'==','!='),(r'!=','=='),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[a-z(])',''),(r'\b2\b','1'),(r'\b1\b','2'),(r'\b0\b','1'),(r'\b8\b','7'),(r'\+ 1\b',''),(r'- 1\b',''),
 (r'&\(-([a-z_0-9.]+)\)',r'&\1'),(r'-(?=&?[a-z])',''),(r'\.neg\(\)',''),(r'\.invert\w*\(\)',''),(r'is_some','is_none'),(r'is_none','is_some'),(r'\bis_negative\b','is_positive'),(r'\.not\(\)',''),
 (r'L_BOUND\b','LP_BOUND'),(r'LP_BOUND\b','L_BOUND'),(r'EPS_BOUND\b','L_BOUND'),(r'modulus_wide','modulus'),(r'_wide\b',''),(r'prove','verif'),(r'cap_x\b','cap_y'),(r'cap_y\b','cap_x'),
 (r'\bfirst\b','second'),(r'\bsecond\b','first'),(r'pk0\b','pk1'),(r'pk1\b','pk0'),(r'_0\b','_1'),(r'_1\b','_0'),(r'\bp\b','q'),(r'\bq\b','p'),(r'\balpha\b','beta'),(r'\bbeta\b','alpha'),(r'\bmu\b','nu'),(r'z1\b','z2'),(r'z2\b','z1'),(r'z3\b','z4'),(r'z4\b','z3')]
def mutants(f):
    L=open(R+f).read().split('\n')
    end=len(L)
    for i,l in enumerate(L):
        if l.strip()=='#[cfg(test)]' and i+1<len(L) and 'mod ' in L[i+1]: end=i;break
    out=[]
    for i in range(end):
        l=L[i]; s=l.strip()
        if not s or s.startswith(('//','#','use ','pub use','impl','}','where','pub(crate) struct','pub struct','mod ')) : continue
        code=l.split(' //')[0]
        for pat,rep in RULES:
            for m in re.finditer(pat,code):
                if '->' in code[max(0,m.start()-1):m.end()+1] or '=>' in code[max(0,m.start()-2):m.end()+2] and pat in('==',): continue
                if "'" in code and pat==r'\bp\b': continue
                n=code[:m.start()]+m.expand(rep)+code[m.end():]
                if n!=code: out.append((i,n+l[len(code):],'%s->%s'%(pat,rep),1))
        # drop chain/hash lines, early return blocks
        if re.match(r'^\s*\.chain\w*\(.*\)$',l): out.append((i,'','drop chain',1))
        m=re.match(r'^(\s*)if (.*) \{$',l)
        if m:
            j=i+1
            while j<end and not L[j].startswith(m.group(1)+'}'): j+=1
            if j<end and L[j].strip()=='}' and j-i<=10: out.append((i,m.group(1)+'if false && ('+m.group(2)+') {' if ' let ' not in ' '+m.group(2) else None,'disable if',1))
        if re.match(r'^\s*(let _ = )?[a-z_.]+\(.*\)\??;$',l) and not s.startswith('return'): out.append((i,'','drop stmt',1))
    return L,[o for o in out if o[1] is not None]
def apply(f,i,n):
    L=open(R+f).read().split('\n'); L[i]=n; return '\n'.join(L)
if __name__=='__main__':
    random.seed(int(sys.argv[1])); per=int(sys.argv[2]); pref=sys.argv[3:]
    jobs=[]
    for f in MAP:
        if pref and not any(f.startswith(p) for p in pref): continue
        L,ms=mutants(f); seen=set(); u=[]
        for m in ms:
            if (m[0],m[1]) not in seen: seen.add((m[0],m[1])); u.append(m)
        n=min(len(u),max(3,len(u)*per//100))
        for m in random.sample(u,n): jobs.append(dict(file=f,line=m[0],new=m[1],rule=m[2],old=L[m[0]],checks=MAP[f]))
    random.shuffle(jobs)
    print(len(jobs),file=sys.stderr)
    for j in jobs: print(json.dumps(j))
