#!/usr/bin/env python3
"""mutants.py LIST [workers]: mutation campaign. LIST is a python file defining M = [(name, check[,check..], file, old, new), ...].
Each mutant is applied to a private copy of /repo, which a mount namespace shows as /repo (and a private copy of /verif as
/verif); the quick check of the named property is run. A development tool: no check uses it."""
import os, re, subprocess, sys, threading, queue, shutil
lst=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 3
ns={}; exec(open(lst).read(), ns); M=ns["M"]
only=set(sys.argv[3:])
q=queue.Queue()
for m in M:
    if not only or m[0] in only: q.put(m)
lock=threading.Lock()
def fnText(s,name):
    """text of a top-level function, from its 'pub fn'/'fn' to the brace in column 0"""
    m=re.search(r"^(pub )?"+re.escape(name)+r"\b[^\n]*\n(.*\n)*?}\n?", s, re.M)
    return m.group(0) if m else ""
def work(i):
    base=f"/tmp/mw{os.getpid()}_{i}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.run(["cp","-a","/repo",base+"/repo"],check=True); subprocess.run(["git","-C",base+"/repo","checkout","-q","--","."])
    subprocess.run(["rsync","-a","--exclude=/work","--exclude=/replays","--exclude=/seeded","/verif/",base+"/verif/"],check=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        name,chk=m[:2]; edits=m[2] if isinstance(m[2],list) else [tuple(m[2:])] if len(m)>3 else []; bad=False
        if isinstance(m[2],str) and m[2].startswith("patch:"): # a patch file
            edits=[]; bad=subprocess.run(["git","-C",base+"/repo","apply",m[2][6:]]).returncode!=0
        for f,o,n in edits: # an edit whose old text is "fn NAME" replaces that whole function
            p=f"{base}/repo/src/{f}"; s=open(p).read()
            if o.startswith("fn ") and "(" not in o: o=fnText(s,o)
            if not o or o not in s: bad=True; print(f"{name}: NOT FOUND {o[:60]!r}", flush=True); break
            open(p,"w").write(s.replace(o,n,1))
        if bad: subprocess.run(["git","-C",base+"/repo","checkout","-q","--","."]); continue
        for c in chk.split(","):
            r=subprocess.run(["unshare","-Urm","bash","-c",f"mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /verif && VERIF_SEED=1 timeout 1500 python3 run.py {c} quick"],capture_output=True,text=True)
            lines=[l for l in (r.stdout+r.stderr).splitlines() if "VIOLATION" in l or "ERROR" in l or "error" in l]
            with lock: print(f"{name} {c}: rc={r.returncode} {'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'TOOL'} {lines[:1] if r.returncode==1 else lines[:4]}", flush=True)
        subprocess.run(["git","-C",base+"/repo","checkout","-q","--","."])
    shutil.rmtree(base, ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
