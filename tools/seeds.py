#!/usr/bin/env python3
# seeds.py [ID...]: writes the seeded changes of tools/seed/*.seed to /verif/seeded/<id>/ and confirms each in a scratch copy of
# /repo: the patch applies and builds, the stable tests pass with it, the demonstration passes without and fails with it.
import sys,os,json,subprocess,shutil,re,glob,tempfile
V='/verif'; D=V+'/tools/seed'; S='/tmp/seedcopy'
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',GOFLAGS='-mod=mod')
def run(c,cwd=S): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,timeout=600)
DEMO='''#!/bin/sh
# Exit 0 if the repository in the current directory behaves as it should.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -f "$t/overlay.json"; rmdir "$t"' EXIT
sep=
{
	printf '{"Replace":{'
	for f in "$d"/*.go; do
		printf '%%s"%%s/%(dir)szz_demo_%%s":"%%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} >"$t/overlay.json"
timeout 280 go test -vet=off -count=1 -timeout 60s %(flags)s-run '^TestDemo$' -overlay "$t/overlay.json" ./%(dir)s
'''
def parse(path):
    # sections: "== name" lines
    r={};cur=None
    for l in open(path):
        m=re.match(r'== (.*)\n',l)
        if m: cur=m.group(1); r.setdefault(cur,[]).append(''); continue
        if cur is not None: r[cur][-1]+=l
    for k in('old','new'): r[k]=[x[:-1] for x in r[k]]
    return r
def main():
    ids=sys.argv[1:]
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad=0
    for p in sorted(glob.glob(D+'/*.seed')):
        i=os.path.basename(p)[:-5]
        if ids and not any(i.startswith(x) for x in ids): continue
        r=parse(p)
        head=json.loads(r['meta'][0])
        out=V+'/seeded/'+i
        os.makedirs(out,exist_ok=True)
        for f in os.listdir(out): os.remove(out+'/'+f)
        shutil.rmtree(S,ignore_errors=True)
        shutil.copytree('/repo',S,symlinks=True)
        run('git checkout -q -- . && git clean -fdq')
        err=None
        dir=head.pop('dir','')
        flags=head.pop('flags','')
        pkg=head.pop('package','leaves_test')
        for o,n,f in zip(r['old'],r['new'],r['file']):
            f=f.strip()
            s=open(S+'/'+f).read()
            if s.count(o)!=1: err='%d matches in %s'%(s.count(o),f); break
            open(S+'/'+f,'w').write(s.replace(o,n))
        if not err:
            diff=run('git diff').stdout
            open(out+'/patch.diff','w').write(diff)
            json.dump(head,open(out+'/meta.json','w'),indent=1)
            open(out+'/demo_test.go','w').write(r['demo'][0])
            if pkg=='leaves_test' and not dir: shutil.copy(D+'/help_test.go.txt',out+'/help_test.go')
            open(out+'/demo.sh','w').write(DEMO%dict(dir=(dir+'/') if dir else '',flags=flags+' ' if flags else ''))
            os.chmod(out+'/demo.sh',0o755)
            b=run('gofmt -l . ; go build ./...')
            if b.returncode: err='build: '+b.stderr
        if not err:
            t=run('go test -json -vet=off -count=1 -timeout 10m ./...')
            ok=set()
            for l in t.stdout.splitlines():
                try: d=json.loads(l)
                except ValueError: continue
                if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
            miss=stable-ok
            if miss: err='stable tests fail: %s'%sorted(miss)
        if not err:
            d=run('sh %s/demo.sh'%out)
            if d.returncode==0: err='demo passes with the patch'
            elif 'build failed' in d.stdout+d.stderr: err='demo does not build: '+d.stdout+d.stderr
            why=(d.stdout+d.stderr).strip().splitlines()[:3]
        if not err:
            run('git checkout -q -- .')
            d=run('sh %s/demo.sh'%out)
            if d.returncode: err='demo fails without the patch: '+d.stdout+d.stderr
        print(i,head['property'],'OK' if not err else 'BAD '+err, '' if err else why[:2]); sys.stdout.flush()
        bad+=bool(err)
    shutil.rmtree(S,ignore_errors=True)
    sys.exit(bad>0)
main()
