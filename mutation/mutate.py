#!/usr/bin/env python3
"""Mechanical mutants of /repo/src, each run against the checks of its file until one catches it.

usage: mutate.py WORKDIR WORKERS COUNT SEED [file-substring]
Needs the right to mount: every worker runs in a private mount namespace in which copies lie over
/repo and /verif. Not part of any registered check.
"""
import os,random,re,subprocess,sys,json,threading,queue,shutil,time
CHECKS={
 'src/disassemble.rs':'C23 C31 C32','src/lib.rs':'C12 C18 C20','src/mem.rs':'C10 C01 C13 C29','src/u4.rs':'C05 C01 C23',
 'src/aalv/mod.rs':'C15 C16 C17 C30','src/aalv/obj.rs':'C15 C16 C18 C24 C12','src/aalv/obj/sec_impl.rs':'C15 C16','src/aalv/savn.rs':'C17 C26 C16',
 'src/bin/t.rs':'C13 C29 C30','src/bin/tar.rs':'C17 C30','src/bin/tc.rs':'C18 C20 C22 C30 C29 C19 C21','src/bin/tdbg.rs':'C31',
 'src/bin/tl.rs':'C24 C26 C27 C25 C28 C30','src/bin/tobjdump.rs':'C32','src/bin/tstrip.rs':'C28 C30',
 'src/blf4/mod.rs':'C01 C02 C03 C06 C08 C09 C05 C07 C11 C13 C31','src/blf4/register_type.rs':'C02 C01 C23','src/blf4/std_kernel.rs':'C13 C14 C12',
 'src/machine/mod.rs':'C13 C06 C01 C11','src/machine/ekernel.rs':'C13',
 'src/source/mod.rs':'C18 C21 C20 C19 C22','src/source/err.rs':'C18 C19 C22','src/source/symbols.rs':'C20 C19 C18 C22',
 'src/blf4/isa/handlers.rs':'C01 C05 C03 C04 C06 C02 C07','src/blf4/isa/mod.rs':'C05 C01 C23','src/blf4/std_kernel/load_user_binary.rs':'C12 C29 C14'}
RULES=[(r'==','!='),(r'!=','=='),(r'<=','<'),(r'>=','>'),(r'(?<=\s)<(?=\s)','<='),(r'(?<=\s)>(?=\s)','>='),(r'&&','||'),(r'\|\|(?= )','&&'),
 (r'(?<=\s)\+(?=\s)','-'),(r'(?<=\s)-(?=\s)','+'),(r'\+=','-='),(r'-=','+='),(r'wrapping_add','wrapping_sub'),(r'wrapping_sub','wrapping_add'),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<=\s)&(?=\s)','|'),(r'(?<=\s)\|(?=\s)','&'),(r'<<','>>'),(r'>>(?= \d)','<<'),(r'(?<=\s)\^(?=\s)','|'),
 (r'(?<=\s)\*(?=\s)','+'),(r'(?<=\s)/(?=\s)','*'),(r'!(?=[a-z(])',''),(r'\bbreak\b','continue'),(r'\bcontinue\b','break'),
 (r'\b(?:if|while)\s+(?!let)([^{]+?)\s*\{',lambda m:m.group(0).replace(m.group(1),'true || '+m.group(1)) if '||' not in m.group(1) and '&&' not in m.group(1) else None),
 (r'\bif\s+(?!let)([^{]+?)\s*\{',lambda m:m.group(0).replace(m.group(1),'false && '+m.group(1)) if '||' not in m.group(1) else None),
 (r'\b0x[0-9a-fA-F_]+\b',lambda m:hex(int(m.group(0).replace('_',''),16)+1)),
 (r'(?<![\w.\'])\d+(?![\w.])',lambda m:str(int(m.group(0))+1)),
 (r'(?<![\w.\'])[1-9]\d*(?![\w.])',lambda m:str(int(m.group(0))-1)),
 (r'\bstart\b','end'),(r'\bis_some\b','is_none'),(r'\bis_none\b','is_some'),(r'\bis_empty\(\)','len() == 1'),
 (r'\bR(\d)([LH]?)\b',lambda m:'R%d%s'%((int(m.group(1))%5)+1,m.group(2))),
 (r'\bfirst\(','last('),(r'\bmax\(','min('),(r'\bmin\(','max('),(r'\bany\(','all('),(r'\ball\(','any('),(r'\bpush_back\(','push_front('),(r'\bpop_front\(','pop_back('),
 (r'\bu16\b','u8'),(r'\bi16\b','u16'),(r'\bi8\b','u8'),(r'saturating_','wrapping_'),
 (r'\bIllegalRead\b','IllegalWrite'),(r'\bLevel1PageFault\b','Level2PageFault'),(r'\bLevel2PageFault\b','Level1PageFault'),(r'\bIllegalExecute\b','IllegalRead'),(r'\bInvalid\b','IllegalOperation'),
 (r'ExitCode::FAILURE','ExitCode::SUCCESS'),(r'\bzero\b','carry'),(r'\bcarry\b','overflow'),(r'\bsign\b','zero'),(r'\boverflow\b','sign'),(r'\buser_mode\b','virtual_mode'),(r'\bvirtual_mode\b','user_mode'),(r'\bcontains\b','contains'),
]
def mutants(repo):
    out=[]
    for f in sorted(CHECKS):
        lines=open(f'{repo}/{f}').read().split('\n')
        test=False
        for i,l in enumerate(lines):
            if '#[cfg(test)]' in l or '#[test]' in l: test=True
            s=l.strip()
            if test or not s or s.startswith(('//','use ','#[','pub use','mod ','pub mod','const NAME')) : continue
            code=l.split('//')[0] if '"' not in l else l
            for pat,rep in RULES:
                for m in re.finditer(pat,code):
                    pre=code[:m.start()]
                    if pre.count('"')%2: continue   # within a string
                    new=rep(m) if callable(rep) else rep
                    if new is None or new==m.group(0): continue
                    out.append((f,i,l[:m.start()]+new+l[m.end():]))
            # drop a statement
            if re.match(r'^\s*[\w.*()\[\]?&]+(\(.*\)|\s*[-+|&^]?=\s*.*)\??;$',l) and not s.startswith('let ') and not s.startswith('return'):
                out.append((f,i,'// dropped'))
            if re.match(r'^\s*\w.*,$',l) and '=>' not in l and False: pass
    return out
def main():
    work,workers,count,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4])
    sub=sys.argv[5] if len(sys.argv)>5 else ''
    all_=[m for m in mutants('/repo') if sub in m[0]]
    rnd=random.Random(seed); rnd.shuffle(all_)
    # spread: at most one mutant a line first
    seen=set(); first=[]; rest=[]
    for m in all_:
        (rest if (m[0],m[1]) in seen else first).append(m); seen.add((m[0],m[1]))
    todo=(first+rest)[:count]
    print(len(all_),'mutants,',len(first),'lines,',len(todo),'chosen',flush=True)
    q=queue.Queue()
    for n,m in enumerate(todo): q.put((n,m))
    os.makedirs(work,exist_ok=True)
    log=open(f'{work}/log.jsonl','a'); lock=threading.Lock()
    done=set()
    for l in open(f'{work}/log.jsonl'):
        d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    def worker(k):
        r=f'{work}/w{k}/repo'; v=f'{work}/w{k}/verif'
        os.makedirs(f'{work}/w{k}',exist_ok=True)
        for s,d in (('/repo',r),('/verif',v)):
            subprocess.run(['rsync','-a','--delete','--exclude','seeded',s+'/',d+'/']) if shutil.which('rsync') else (shutil.rmtree(d,ignore_errors=True),subprocess.run(['cp','-a',s,d]))
        ns=lambda c,t: subprocess.run(['timeout','-k','5',str(t),'unshare','-m','bash','-c',f'mount --bind {r} /repo && mount --bind {v} /verif && cd / && {c}'],capture_output=True,text=True)
        while True:
            try: n,(f,i,new)=q.get_nowait()
            except queue.Empty: return
            if (f,i+1,new) in done: continue
            orig=open(f'/repo/{f}').read(); ls=open(f'{r}/{f}').read().split('\n'); old=ls[i]; ls[i]=new
            keep=open(f'{r}/{f}').read()
            open(f'{r}/{f}','w').write('\n'.join(ls))
            t=time.time(); res='survived'; by=''; detail=''
            b=ns('export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true; cargo build -q --offline --workspace --manifest-path /repo/Cargo.toml --target-dir /verif/.build/m 2>&1',300)
            if b.returncode: res='no build'
            else:
                for c in CHECKS[f].split():
                    o=ns(f'bash /verif/check.sh {c}',400)
                    if o.returncode==1 and 'VIOLATION' in o.stdout:
                        res='caught'; by=c; detail='\n'.join(o.stdout.split('\n')[1:2])[:150]; break
                    if o.returncode!=0:
                        res='check broke'; by=c; detail=(o.stdout+o.stderr)[-300:]+f' rc={o.returncode}'; break
            open(f'{r}/{f}','w').write(keep)
            with lock:
                log.write(json.dumps(dict(file=f,line=i+1,old=old.strip(),new=new,result=res,by=by,detail=detail,s=round(time.time()-t)))+'\n'); log.flush()
                print(n,res,by,f,i+1,old.strip()[:60],'->',new.strip()[:60],round(time.time()-t),flush=True)
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
