#!/usr/bin/env python3
"""prove.py OUT.jsonl RESULT.jsonl WORKERS: give the survivors of run.py's
campaign (mutants neither the tests nor the native runs notice) to the proofs:
which property's obligations stop being discharged?"""
import json,os,re,subprocess,sys,threading,shutil,time
IN,OUT,W=sys.argv[1],sys.argv[2],int(sys.argv[3])
env=dict(l.split('=',1) for l in subprocess.check_output(['bash','-c','. /opt/vp/env.sh; env'],text=True).splitlines() if '=' in l)
PROPS={'block/':['C18','C12','C13'],'lump/':['C19','C07'],'lumpindex/':['C05','C06','C04'],'portion/':['C03','C05','C07','C04'],
'util/':['C07','C12'],'nvm/file':['C13','C12'],'nvm/memory':['C13','C18'],'nvm/header':['C12'],'nvm/snapnvm':['C14'],
'storage/allocator':['C03','C04','C21'],'storage/data_region':['C01','C02','C17'],'storage/journal/nvm_buffer':['C08'],
'storage/journal/record':['C07'],'storage/journal/ring':['C09','C21','C10'],'storage/journal/region':['C11','C10','C16'],
'storage/journal/journal_header':['C12','C10'],'storage/storage.go':['C16','C17','C12','C02','C01','C05','C06','C11','C14','C15','C21','C19','C10']}
skip=re.compile(r'drop (panic|fmt\.Printf|ostats)')
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        d=json.loads(l); done.add((d['File'],d['Off'],d['End'],d['Repl']))
ms=[]
for l in open(IN):
    d=json.loads(l)
    if d['res'].split(':')[0]=='survived' and not skip.match(d['Desc']) and (d['File'],d['Off'],d['End'],d['Repl']) not in done: ms.append(d)
print(len(ms))
lock=threading.Lock(); it=iter(ms); outf=open(OUT,'a')
def worker(k):
    R=f'/tmp/mut/p{k}'; shutil.rmtree(R,True); os.makedirs('/tmp/mut',exist_ok=True); subprocess.check_call(['cp','-a','/repo',R])
    for f in sorted({m['File'] for m in ms}):
        d=os.path.dirname(f); pk=open(f'/repo/{f}').read().split('package ',1)[1].split()[0]
        open(f'{R}/{d}/zz_mut.go','w').write(f'package {pk}\n\nvar zzN int\n\nfunc zzF() bool {{ return zzN != 0 }}\n')
    while True:
        with lock: m=next(it,None)
        if m is None: break
        src=open('/repo/'+m['File'],'rb').read()
        open(f"{R}/{m['File']}",'wb').write(src[:m['Off']]+m['Repl'].encode()+src[m['End']:])
        ps=max((p for p in PROPS if m['File'].startswith(p)),key=len)
        res='undetected'; t0=time.time()
        for p in PROPS[ps]:
            try: r=subprocess.run(['/verif/gocv/bin/gocv','-verif','/verif','-prop',p,'-nowitness','-repo',R],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=600)
            except subprocess.TimeoutExpired: res='timeout '+p; continue
            if r.returncode!=0:
                v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'FAIL' in l or 'not discharged' in l][:1]
                res=f'{p} rc={r.returncode} '+(v[0][:160] if v else r.stdout[-160:]); break
        open(f"{R}/{m['File']}",'wb').write(src)
        m['proof']=res; m['pt']=round(time.time()-t0,1)
        with lock: outf.write(json.dumps(m)+'\n'); outf.flush()
    shutil.rmtree(R,True)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
