import re,subprocess,os,shutil,time,sys
res=[]
only=sys.argv[1:]
for l in open('/verif/known_findings.txt'):
    m=re.match(r'fixed: property=(C\d\d) (\w+) (.*)',l)
    if not m: continue
    prop,c,txt=m.groups()
    if only and c not in only: continue
    d='/dev/shm/rev-wt'
    subprocess.run(['git','-C','/repo','worktree','remove','--force',d],capture_output=True)
    subprocess.run(['git','-C','/repo','worktree','add','--detach',d,'HEAD'],capture_output=True,check=True)
    r=subprocess.run(['git','-C',d,'revert','--no-commit',c],capture_output=True,text=True)
    if r.returncode:
        print(prop,c,'CONFLICT',txt[:80],flush=True)
    else:
        t=time.time()
        r=subprocess.run(['./check.sh',prop,'quick'],cwd='/verif',env=dict(os.environ,MC_REPO=d,MC_EVIDENCE='/dev/shm/rev-ev',MC_STOP='1'),capture_output=True,text=True)
        print(prop,c,'CAUGHT' if r.returncode==1 and 'VIOLATION property='+prop in r.stdout else f'MISSED rc={r.returncode} {r.stderr[-200:]}',f'{time.time()-t:.0f}s',txt[:80],flush=True)
    subprocess.run(['git','-C','/repo','worktree','remove','--force',d],capture_output=True)
