#!/usr/bin/env python3
# stage2.py IN OUT [seconds]: runs the checks of the properties the file belongs to on the changes of IN in a random order,
# until one reports a violation. One line per change in OUT.
import sys,os,random,subprocess,shutil,time
inp,out=sys.argv[1:3]; limit=float(sys.argv[3]) if len(sys.argv)>3 else 1e9
M={'leaves.go':'P16 P13 P15 P10 P12 P28 P17 P14','lgensemble.go':'P04 P15 P12 P28 P13 P16','lgtree.go':'P01 P02 P03 P21 P20 P12 P05',
'lgensemble_io.go':'P01 P03 P02 P04 P05 P20 P28 P10 P21 P18 P19','skensemble_io.go':'P09 P20 P28 P21 P18','xgblinear.go':'P08 P15 P28 P16',
'xgblinear_io.go':'P08 P28 P20 P10 P18 P21','xgensemble.go':'P07 P06 P15 P28 P12','xgensemble_io.go':'P06 P07 P28 P20 P10 P21 P18','mat/mat.go':'P27 P25 P26',
'mat/mat_io.go':'P27 P25 P26','transformation':'P10 P11 P28 P16','util/util.go':'P24 P29 P30 P27 P20 P21 P18 P19','internal/pickle/decoder.go':'P23 P22 P21 P09 P18 P19',
'internal/pickle/machine.go':'P22 P21 P23 P09','internal/pickle/types.go':'P23 P22 P21 P09','internal/pickle/numpy.go':'P23 P09 P20 P21','internal/pickle/sklearn.go':'P23 P09 P20 P21 P28 P22',
'internal/xgbin/xgbin_io.go':'P06 P07 P08 P28 P18 P21 P20 P19'}
done=set()
if os.path.exists(out): done={l.split('\t')[1] for l in open(out)}
ls=[l.rstrip('\n') for l in open(inp)]
random.Random(7).shuffle(ls)
t0=time.time()
d='/tmp/mutw'
shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
for l in ls:
    n,loc,what=l.split('\t')
    if n in done: continue
    if time.time()-t0>limit: break
    file=loc.split(':')[0]
    subprocess.run(['/tmp/mutate','apply',d,n])
    res='MISSED'; inc=[]
    t1=time.time()
    for p in next(v for k,v in M.items() if file.startswith(k)).split():
        r=subprocess.run(['/verif/check.sh',p,'-noevidence','-budget','40'],env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        if r.returncode==1: res='caught '+p; break
        if r.returncode!=0: inc.append(p+'=%d'%r.returncode)
        elif ' 0 incomplete' not in r.stdout: inc.append(p)
    shutil.copy('/repo/'+file,d+'/'+file)
    open(out,'a').write('%s\t%s\t%s\t%s\t%s\t%.0fs\n'%(res,n,loc,what,' '.join(inc),time.time()-t1))
