#!/usr/bin/env python3
"""For every planted bug: are the lines it changes (removes) lines of the original repository?"""
import subprocess,re,os,sys
BASE='ee48f2c'
repo='/repo'
full=subprocess.check_output(['git','-C',repo,'rev-parse',BASE],text=True).strip()
for d in sorted(os.listdir('/verif/seeded')):
    p=f'/verif/seeded/{d}/patch.diff'
    if not os.path.exists(p): continue
    f=None; old=0; orig=new=0; adds=0
    for l in open(p):
        if l.startswith('--- a/'): f=l[6:].strip(); continue
        if l.startswith('+++') : continue
        m=re.match(r'@@ -(\d+)',l)
        if m: old=int(m.group(1)); continue
        if l.startswith('-'):
            b=subprocess.check_output(['git','-C',repo,'blame','-s','-l','-L',f'{old},{old}',f],text=True)
            c=b.split()[0].lstrip('^')
            if subprocess.call(['git','-C',repo,'merge-base','--is-ancestor',c,full])==0: orig+=1
            else: new+=1
            old+=1
        elif l.startswith('+'): adds+=1
        elif l.startswith(' '): old+=1
    print(f"{d:34s} orig-removed={orig} fix-removed={new} added={adds}", '' if orig else '  <-- none')
