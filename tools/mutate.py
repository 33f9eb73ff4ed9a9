#!/usr/bin/env python3
# Developer tool: simple source mutants of /repo/src against the workloads (scratch in /tmp/w/mut). Not used by any check.
# usage: mutate.py OUT.jsonl workers per_file_limit seed file...     (files relative to /repo/src)
import sys,os,re,json,subprocess,random,shutil,glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('VERIF_REPO','/repo')
import run as R, checks
W='/tmp/w/mut'; SRC='/repo/src'
ALL=[c for c in checks.CHECKS if c!='C31']+['C31']
REL={ # workloads tried first
 'Conversion.cpp':'C03 C04 C25 C05 C12 C23 C20 C19','Bitcoin.cpp':'C08 C12 C15 C06 C05 C28 C25 C09 C10 C11 C27','HDWallet.cpp':'C14 C15 C13 C28 C25 C05 C26','Script.cpp':'C17 C29 C06 C05 C26 C24','Transaction.cpp':'C17 C18 C16 C19 C05 C24 C26','PSBT.cpp':'C20 C21 C22 C24 C26 C25 C05','Electrum.cpp':'C23 C24 C26 C22','BaseClasses.cpp':'C18 C05 C25 C24','BitcoinCurve.cpp':'C07 C08','Hash.cpp':'C02 C04','utility/segwit_addr.c':'C06 C29','utility/trezor/base58.c':'C03 C15','utility/trezor/bip39.c':'C13','utility/trezor/hmac.c':'C02 C14','utility/trezor/pbkdf2.c':'C02 C13','utility/trezor/rfc6979.c':'C09','utility/trezor/ecdsa.c':'C07 C09 C10 C08 C31','utility/trezor/bignum.c':'C07 C09 C10','utility/trezor/sha2.c':'C02','utility/trezor/ripemd160.c':'C02','utility/trezor/rand.c':'C13 C31','Networks.cpp':'C06 C15','utility/trezor/memzero.c':'C28'}
def mutants(rel,lines):
    out=[]; com=False; t=rel.endswith(('.c','.cpp','.h')); off=0; stack=[]
    for i,l in enumerate(lines):
        s=l.strip()
        if com:
            if '*/' in s: com=False
            continue
        if s.startswith('/*'):
            if '*/' not in s: com=True
            continue
        if s.startswith('#if'):
            dead = bool(re.match(r'#if\s+0|#ifdef (ARDUINO|__MBED__|MBED_VERSION|UBTC_EPS)|#if USE_ARDUINO|#if USE_ETHEREUM|#if USE_KECCAK|#if USE_GRAPHENE|#if USE_CARDANO|#if !USE_STD|#ifndef USE_STD|#if USE_MONERO|#ifdef USE_ARDUINO',s)); stack.append(dead); continue
        if s.startswith('#el'):
            if stack: stack[-1]=not stack[-1] if stack[-1] else stack[-1]
            continue
        if s.startswith('#endif'):
            if stack: stack.pop()
            continue
        if any(stack) or s.startswith('#') or s.startswith('//') or not s or s.startswith(('assert','using','extern')): continue
        c=l.split('//')[0]
        q=re.sub(r'"(\\.|[^"\\])*"',lambda m:'"'+'~'*(len(m.group())-2)+'"',c); q=re.sub(r"'(\\.|[^'\\])'",lambda m:"'"+'~'*(len(m.group())-2)+"'",q)
        def rep(m,new,name): out.append((i,l[:m.start()]+new+l[m.end():],name))
        for m in re.finditer(r'(?<![<>=!\-+*/&|^])(<=|>=|==|!=|<|>)(?![<>=])',q):
            o=m.group()
            if o in '<>' and re.search(r'include|template|static_cast|reinterpret|std::|const_cast|vector',q): continue
            n={'<':'<=','<=':'<','>':'>=','>=':'>','==':'!=','!=':'=='}[o]; rep(m,n,o+'→'+n)
            if o in ('==',): rep(m,'>=','==→>=')
        for m in re.finditer(r'&&|\|\|',q): rep(m,'||' if m.group()=='&&' else '&&',m.group()+' swap')
        for m in re.finditer(r'(?<=[\w\)\]]) ?([+\-]) ?(?=[\w\(])',q):
            if re.search(r'->',q[m.start():m.end()+1]): continue
            rep(m,m.group().replace('+','§').replace('-','+').replace('§','-'),'arith')
        for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])',q):
            v=int(m.group(),0)
            if v>0xffff: continue
            rep(m,str(v+1),'const+1')
            if v>0: rep(m,str(v-1),'const-1')
        for m in re.finditer(r'\b(true|false)\b',q): rep(m,'false' if m.group()=='true' else 'true','bool')
        m=re.search(r'\bif ?\((.*)\) ?\{?\s*$',q)
        if m:
            out.append((i,l[:m.start(1)]+'0&&('+l[m.start(1):m.end(1)]+')'+l[m.end(1):],'if false')); 
            if 'else if' not in q: out.append((i,l[:m.start(1)]+'1||('+l[m.start(1):m.end(1)]+')'+l[m.end(1):],'if true'))
        if q.rstrip().endswith(';') and not re.match(r'\s*(return|break|continue|goto|case|default|typedef|struct|class|static|const|u?int\d*|u?int\d+_t|size_t|char|bool|bignum256|curve_point|Script |TxOut |TxIn |Tx |for|while|do|else|\}|virtual)\b',q) and q.count('(')==q.count(')') and '{' not in q:
            out.append((i,';\n','delete: '+s[:50]))
        m=re.match(r'(\s*)return (.*);\s*$',q)
        if m and m.group(2) not in('0','1'): out.append((i,l[:m.start(2)]+'{}'+l[m.end(2):],'return {}'))
        if re.search(r'\bmem(zero|cpy|set)\b',q): pass
    return out
def build():
    cfg=checks.CHECKS; files=sorted(set(f for c in cfg.values() for f in (c['files'] if isinstance(c['files'],list) else [c['files']])))
    b=W+'/base'; os.makedirs(b,exist_ok=True); return R.build('asan',files,b),b+'/asan'
SECS=float(os.environ.get('SECS','2')); 
def trial(exe,wl,d,secs,seed=1):
    cfg=checks.CHECKS[wl]
    n=[e for e in cfg['quick'] if e[0]=='asan' and len(e)==2]
    n=n[0][1] if n else cfg['quick'][0][1]
    cmd=[exe,wl,str(seed),'0',str(n),'37',d+'/pf',d+'/sf','0',str(int(secs)),'leak' if cfg.get('leak') else 'noleak','20']
    try: p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=R.ENV,timeout=secs+25)
    except subprocess.TimeoutExpired: return 'timeout'
    if p.returncode not in(0,): return 'rc%d'%p.returncode
    for l in p.stdout.decode('utf8','replace').splitlines():
        if l.startswith('VIOL '): return json.loads(l[5:])['kind']
    return None
def one(a):
    idx,rel,mi,objs=a; i,new,name=mi; d='%s/m%s'%(W,idx); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    try:
        src=open(SRC+'/'+rel,encoding='utf8').read().split('\n'); old=src[i]; src[i]=new.rstrip('\n'); base=os.path.basename(rel)
        f=d+'/'+base; open(f,'w').write('\n'.join(src)); o=d+'/m.o'
        cc=['clang'] if rel.endswith('.c') else ['clang++']
        lib,_,ld=R.VARIANTS['asan']
        rc,t=R.sh(cc+R.COMMON+['-I'+os.path.dirname(SRC+'/'+rel)]+lib+['-c',f,'-o',o])
        r={'file':rel,'line':i+1,'op':name,'old':old.strip(),'new':new.strip()}
        if rc: r['res']='nocompile'; return r
        skip='lib_src_'+rel.replace('/','_')+'.o'
        exe=d+'/vh'; rc,t=R.sh(['clang++']+ld+[x for x in objs if not x.endswith('/'+skip)]+[o,"-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free",'-o',exe])
        if rc: r['res']='nolink'; return r
        rc1=subprocess.run(['cmp','-s',o,os.path.dirname(objs[0])+'/'+skip]).returncode
        order=REL.get(rel,'').split(); order+= [w for w in ALL if w not in order] if not os.environ.get('RELONLY') else []
        for w in order:
            k=trial(exe,w,d,SECS)
            if k: r['res']='killed'; r['by']=w; r['kind']=k; return r
        r['res']='SURVIVED'; return r
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    out,workers,lim,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]); files=sys.argv[5:]
    exe,bd=build(); objs=sorted(glob.glob(bd+'/*.o')); todo=[]; rnd=random.Random(seed)
    for rel in files:
        l=open(SRC+'/'+rel,encoding='utf8').read().split('\n'); m=mutants(rel,l); cov=json.load(open('/tmp/w/cov/covered.json')).get('/repo/src/'+rel,{}); m=[x for x in m if cov.get(str(x[0]+1),0)>0 and not re.match(r'\s*(-?\d+,|uint8_t \w+\[|char \w+\[)',l[x[0]])]; rnd.shuffle(m); print(rel,len(m)); m=m[:lim]
        todo+=[(rel,x) for x in m]
    if os.environ.get('LIST'): return
    rnd.shuffle(todo); f=open(out,'a'); n=0; cnt={}
    with ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one,[(k,rel,x,objs) for k,(rel,x) in enumerate(todo)]):
            cnt[r['res']]=cnt.get(r['res'],0)+1; f.write(json.dumps(r,ensure_ascii=False)+'\n'); f.flush()
    print(cnt)
main()
