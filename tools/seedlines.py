#!/usr/bin/env python3
# which lines a seed removes or inserts next to, and whether the original repository had them
import subprocess,sys,re,os
for d in sorted(os.listdir('/verif/seeded')):
    p='/verif/seeded/%s/patch.diff'%d
    f=None; ln=0; old=0; new=0; ins=0
    bl={}
    for l in open(p):
        if l.startswith('--- a/'):
            f=l[6:].strip()
            o=subprocess.check_output(['git','-C','/repo','blame','-s','-l',f],text=True).splitlines()
            bl=[x.startswith('^9106112') for x in o]
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))-1
        elif l.startswith('-') and not l.startswith('---'):
            if bl[ln]: old+=1
            else: new+=1
            ln+=1
        elif l.startswith('+') and not l.startswith('+++'): ins+=1
        elif l.startswith(' '): ln+=1
    print(d,'removes original',old,'own',new,'inserts',ins)
