#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl WORKERS: runs the checks that concern a file against each mutant of it."""
import json,subprocess,os,sys,shutil,threading,queue,re
env=dict(os.environ,GOTOOLCHAIN="local",GOFLAGS="-mod=mod",GOPROXY="off",GOSUMDB="off",GOWORK="off",CGO_ENABLED="0",HOME="/root",VERIF_SEED="1")
ST="C07 C01 C02 C03 C04 C05 C06 C08 C09 C10 C12 C14 C16 C17".split()
def plan(f):
    m=re.match(r"store/(badger|boltdb|goleveldb|gtreap|null)/(.*)",f)
    if m:
        e={"badger":"badger","boltdb":"bolt","goleveldb":"level","gtreap":"gtreap","null":"null"}[m.group(1)]
        b=m.group(2)
        if e=="null": return e,["C15"]
        if "iterator" in b: ps="C05 C03 C04 C17".split()
        elif b=="reader.go": ps="C14 C17 C02 C06".split()
        elif b in("writer.go","batch.go"): ps="C17 C07 C08 C10 C01".split()
        elif b=="config.go": ps=["C16"]
        elif b=="stats.go": ps=["C16","C17"]
        else: ps="C16 C11 C17 C14 C12".split()
        if e=="gtreap": ps=[p for p in ps if p not in("C11","C12","C14","C17")]+["C13"]
        if e=="badger": ps=[p for p in ps if p!="C11"]
        return ("gtreapc" if False else e),ps
    if f.startswith("store/"): return "gtreap","C10 C08 C09 C02 C07".split()
    if f=="index/s2idx.go": return "","I09 I01 I05 I08".split()
    if f=="index/s2pointidx.go": return "","I10 I09 I02 I08 I06".split()
    if f=="index/s2timeidx.go": return "","I09 I03 I08 I05".split()
    if f=="index/tools.go": return "","I01 I04 I03".split()
    if f=="index/geodata/loop.go": return "","G02 G04 I05".split()
    if f.startswith("index/geodata"): return "","G06 G05 G04 G07 G01 G03 G02".split()
    return "","T01 T02 T03 T04 T05".split()
muts=[json.loads(l) for l in open(sys.argv[1])]
done=set()
if os.path.exists(sys.argv[2]): done={json.loads(l)["id"] for l in open(sys.argv[2])}
q=queue.Queue()
for m in muts:
    if m["id"] not in done and (len(sys.argv)<5 or m["file"].startswith(sys.argv[4])): q.put(m)
out=open(sys.argv[2],"a"); lock=threading.Lock()
def work(w):
    d="/tmp/mr%d"%w; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["git","clone","-q","/repo",d+"/repo"])
    os.makedirs(d+"/verif/evidence")
    for x in ["harness","models","bin","known-findings.json"]: subprocess.check_call(["cp","-a","/verif/"+x,d+"/verif/"])
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=d+"/repo/"+m["file"]; src=open(p,"rb").read()
        open(p,"wb").write(src[:m["Off"]]+m["New"].encode()+src[m["End"]:])
        only,ps=plan(m["file"]); res="MISSED"; log=[]
        for pr in ps:
            e=dict(env,VERIF_DIR=d+"/verif",VERIF_REPO=d+"/repo",VERIF_ONLY=only if pr!="C13" else "",VERIF_TOTAL_S="200")
            r=subprocess.run(["timeout","400",d+"/verif/bin/engine","check",pr,"quick"],cwd=d+"/verif",env=e,capture_output=True,text=True)
            log.append("%s=%d"%(pr,r.returncode))
            if "cannot be encoded" in r.stdout or "VACUOUS" in r.stdout or "bound reduced" in r.stdout: log.append("(incomplete)")
            if r.returncode==1: res="caught"; break
        open(p,"wb").write(src)
        m["res"]=res; m["log"]=" ".join(log)
        with lock: out.write(json.dumps(m)+"\n"); out.flush(); print(res,m["file"],m["Line"],m["Desc"][:100].replace("\n"," "),m["log"],flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(int(sys.argv[3]))]
[t.start() for t in ts]; [t.join() for t in ts]
