#!/usr/bin/env python3
# stage1.py OUT [step [offset]]: the changes of /repo that build and pass the stable tests, one per line in OUT.
import sys,os,json,subprocess,shutil,threading,queue
out=sys.argv[1]; step=int(sys.argv[2]) if len(sys.argv)>2 else 1; off=int(sys.argv[3]) if len(sys.argv)>3 else 0
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',GOFLAGS='-mod=mod')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
lines=subprocess.run(['/tmp/mutate','list','/repo'],capture_output=True,text=True).stdout.splitlines()
q=queue.Queue()
for i,l in enumerate(lines):
    if i%step==off: q.put(l)
lock=threading.Lock(); f=open(out,'w'); stat={}
def work(k):
    d='/tmp/mut%d'%k
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    while True:
        try: l=q.get_nowait()
        except queue.Empty: break
        n=l.split('\t')[0]; file=l.split('\t')[1].split(':')[0]
        subprocess.run(['/tmp/mutate','apply',d,n])
        r='killed'
        b=subprocess.run('go build ./...',shell=True,cwd=d,env=env,capture_output=True)
        if b.returncode: r='nobuild'
        else:
            try:
                t=subprocess.run('go test -json -vet=off -count=1 -timeout 12s ./...',shell=True,cwd=d,env=env,capture_output=True,text=True,timeout=60)
                ok=set()
                for x in t.stdout.splitlines():
                    try: j=json.loads(x)
                    except ValueError: continue
                    if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
                if not stable-ok: r='passes'
            except subprocess.TimeoutExpired: pass
        shutil.copy('/repo/'+file,d+'/'+file)
        with lock:
            stat[r]=stat.get(r,0)+1
            if r=='passes': f.write(l+'\n'); f.flush()
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
