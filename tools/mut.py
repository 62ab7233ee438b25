import sys,os,subprocess,shutil,time
def mut(name, check, edits, env={}):
    d="/tmp/mut/w-"+name; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C "+d, shell=True)
    for f,a,b in edits:
        p=d+"/"+f; s=open(p).read(); assert s.count(a)>=1,(name,f,a); open(p,"w").write(s.replace(a,b))
    e=dict(os.environ, VP_REPO=d, **env); t=time.time()
    r=subprocess.run(["python3","/verif/check.py",check],env=e,capture_output=True,text=True)
    o=(r.stdout+r.stderr).strip().split("\n"); print("%-28s rc=%d %.0fs | %s" % (name,r.returncode,time.time()-t, " ".join(o)[:420]),flush=True)
    shutil.rmtree(d)
