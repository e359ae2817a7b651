#!/usr/bin/env python3
"""Says which planted bugs change no line of the original repository (git blame)."""
import re,subprocess,sys,os
base=sys.argv[1] if len(sys.argv)>1 else 'f436aa0'
R='/repo'
orig={}
def blame(f):
    if f not in orig:
        o=subprocess.run(['git','-C',R,'blame','-l','-s','HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
        orig[f]=[l.lstrip('^')[:7] if l else '' for l in o]
    return orig[f]
anc=set(x[:7] for x in subprocess.run(['git','-C',R,'log','--format=%H',base],capture_output=True,text=True).stdout.split())
for s in sorted(os.listdir('seeded')):
    n=0;tot=0;f=None;ln=0
    for l in open(f'seeded/{s}/patch.diff',errors='replace').read().split('\n'):
        if l.startswith('--- '): f=l[6:].split('\t')[0]; continue
        if l.startswith('+++ '): continue
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if l.startswith('-'):
            tot+=1
            b=blame(f)
            c=b[ln-1]
            if any(c[:6]==a[:6] for a in anc): n+=1
            ln+=1
        elif l.startswith(' '): ln+=1
    if n==0: print(s,'no original line changed; removed',tot)
