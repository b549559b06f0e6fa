#!/usr/bin/env python3
"""run.py OUT.jsonl FRACTION WORKERS [FILE...]: a mutation campaign on copies of /repo.
For a sample of the small changes mutate.go proposes: does it build, do the
existing tests notice, do the native runs of the checks notice? Survivors are
then given to the proofs (prove.py)."""
import json,os,random,subprocess,sys,threading,glob,shutil,time,resource
OUT,FRAC,W=sys.argv[1],float(sys.argv[2]),int(sys.argv[3])
FILES=sys.argv[4:] or '''storage/data_region.go storage/storage.go storage/journal/journal_header_region.go storage/journal/nvm_buffer.go
storage/journal/record.go storage/journal/region.go storage/journal/ring_buffer.go storage/allocator/judy_allocator.go
lumpindex/lump_index.go nvm/file.go nvm/header.go nvm/memory.go nvm/snapnvm.go block/aligned_bytes.go block/block.go lump/lump.go portion/portion.go util/util.go'''.split()
env=dict(l.split('=',1) for l in subprocess.check_output(['bash','-c','. /opt/vp/env.sh; env'],text=True).splitlines() if '=' in l)
DEPS={'block':['block','lump','nvm','storage/journal','storage/allocator','lumpindex','storage'],
'lump':['lump','lumpindex','storage/journal','storage'],'portion':['portion','storage/allocator','lumpindex','storage/journal','storage'],
'util':['util','lump','nvm','storage/journal','storage'],'nvm':['nvm','storage/journal','storage'],'lumpindex':['lumpindex','storage/journal','storage/allocator','storage'],
'storage/allocator':['storage/allocator','storage'],'storage/journal':['storage/journal','storage'],'storage':['storage']}
WIT=['block','lump','lumpindex','nvm','storage/allocator','storage/journal','storage']
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd,timeout,user=None,extra=None):
    e=dict(env); e.update(extra or {})
    def pre():
        os.setsid()
        if user:
            os.setgid(65534); os.setgroups([]); os.setuid(65534)
    p=subprocess.Popen(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,preexec_fn=pre,text=True,errors='replace')
    try:
        o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except ProcessLookupError: pass
        p.communicate(); return 124,'timeout'
muts=[]
for f in FILES:
    ls=subprocess.check_output(['/tmp/mutate',f],cwd='/repo',text=True).splitlines()
    muts+= [json.loads(l) for l in ls]
random.Random(int(os.environ.get('MSEED','5'))).shuffle(muts)
muts=muts[:int(len(muts)*FRAC)]
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        d=json.loads(l); done.add((d['File'],d['Off'],d['End'],d['Repl']))
muts=[m for m in muts if (m['File'],m['Off'],m['End'],m['Repl']) not in done]
print(len(muts),'mutants')
lock=threading.Lock(); it=iter(muts); outf=open(OUT,'a')
def worker(k):
    R=f'/tmp/mut/w{k}'; S=f'/tmp/mut/s{k}'
    shutil.rmtree(R,True); shutil.rmtree(S,True); os.makedirs('/tmp/mut',exist_ok=True); os.chmod('/tmp/mut',0o755)
    subprocess.check_call(['cp','-a','/repo',R]); os.makedirs(S)
    for f in FILES:
        d=os.path.dirname(f); pk=open(f'/repo/{f}').read().split('package ',1)[1].split()[0]
        open(f'{R}/{d}/zz_mut.go','w').write(f'package {pk}\n\nvar zzN int\n\nfunc zzF() bool {{ return zzN != 0 }}\n')
    for w in WIT:
        ov={}
        for g in glob.glob(f'/verif/witness/{w}/*.go'): ov[f'{R}/{w}/'+os.path.basename(g)]=g
        for g in glob.glob('/verif/witness/zzgw/*.go'): ov[f'{R}/zzgw/'+os.path.basename(g)]=g
        json.dump({'Replace':ov},open(f'{S}/ov-'+w.replace('/','_')+'.json','w'))
    subprocess.check_call(['chown','-R','65534:65534',R])
    while True:
        with lock:
            m=next(it,None)
        if m is None: break
        t0=time.time()
        src=open('/repo/'+m['File'],'rb').read()
        new=src[:m['Off']]+m['Repl'].encode()+src[m['End']:]
        open(f"{R}/{m['File']}",'wb').write(new)
        res=run(m,R,S)
        open(f"{R}/{m['File']}",'wb').write(src)
        m['res']=res; m['t']=round(time.time()-t0,1)
        with lock:
            outf.write(json.dumps(m)+'\n'); outf.flush()
def run(m,R,S):
    d=os.path.dirname(m['File'])
    rc,o=sh(['go','build','./...'],R,200)
    if rc: return 'nobuild'
    deps=DEPS[d]
    T=f'{S}/tmp'
    for p in deps:
        sh(['rm','-rf',T],'/',30); os.makedirs(T); os.chown(T,65534,65534)
        rc,o=sh(['go','test','-vet=off','-c','-o',f'{S}/t','./'+p],R,300)
        if rc: return 'nobuild'
        if not os.path.exists(f'{S}/t'): continue
        rc,o=sh([f'{S}/t','-test.failfast','-test.timeout','90s'],f'{R}/{p}',100,user=1,extra={'TMPDIR':T,'HOME':T})
        os.remove(f'{S}/t')
        if rc:
            sh(['bash','-c','rm -f ./*.lusf ./backup.file'],f'{R}/{p}',10)
            return 'tests:'+p
    for p in deps:
        if p not in WIT: continue
        rc,o=sh(['go','test','-vet=off','-overlay',f'{S}/ov-'+p.replace('/','_')+'.json','-c','-o',f'{S}/t','./'+p],R,300)
        if rc: return 'witness-nobuild:'+p+o[:300]
        sh(['rm','-rf',T],'/',30); os.makedirs(T); os.chown(T,65534,65534)
        rc,o=sh([f'{S}/t','-test.failfast','-test.run','TestGov_','-test.timeout','400s'],T,420,user=1,extra={'TMPDIR':T,'HOME':T,'GOV_BUDGET_MS':'3000','VERIF_SEED':'1'})
        os.remove(f'{S}/t')
        if rc:
            import re
            r=re.findall(r'--- FAIL: (\S+)',o) or re.findall(r'(TestGov_\w+)',o)
            return 'native:'+p+':'+(r[0] if r else o[-200:])
    return 'survived'
ts=[threading.Thread(target=worker,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
