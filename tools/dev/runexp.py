import sys, os, shutil, subprocess, tempfile, time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
mod=__import__(os.environ.get('EXPMOD','exp'))
ids=[a for a in sys.argv[1:] if not a.startswith('-')]; allc='-a' in sys.argv
dry='-n' in sys.argv
for i,prop,edits in mod.P:
    if ids and not any(i.startswith(x) for x in ids): continue
    d=tempfile.mkdtemp(prefix='exp-',dir='/dev/shm')
    try:
        shutil.copytree('/repo/esp_idf_size',d+'/esp_idf_size',ignore=shutil.ignore_patterns('__pycache__'))
        bad=False
        for fn,old,new in edits:
            t=open(f'{d}/esp_idf_size/{fn}').read()
            if t.count(old)!=1: print(i,'BAD EDIT',fn,t.count(old),repr(old[:80])); bad=True; break
            open(f'{d}/esp_idf_size/{fn}','w').write(t.replace(old,new))
        if bad: continue
        r=subprocess.run(['/opt/venv/bin/python','-B','-c','import esp_idf_size.main'],cwd=d,capture_output=True,text=True)
        if r.returncode: print(i,'DOES NOT IMPORT',r.stderr[-200:]); continue
        if dry: continue
        seq=[prop]
        if allc: seq+=[f'C{k:02}' for k in range(1,22) if f'C{k:02}'!=prop]
        res=[]
        for c in seq:
            t0=time.time()
            r=subprocess.run(['./check.sh',c,'quick'],cwd='/verif',env=dict(os.environ,MC_REPO=d,MC_EVIDENCE=d+'/.ev',MC_STOP='1'),capture_output=True,text=True)
            hit=r.returncode==1 and 'VIOLATION property='+c in r.stdout
            if hit: res.append(f'{c} {time.time()-t0:.0f}s'); break
            if r.returncode not in (0,1): res.append(f'{c} CRASH {r.stderr[-300:]}')
        print(i,prop,'CAUGHT' if res and res[0].startswith(prop) else 'MISSED',res,flush=True)
    finally: shutil.rmtree(d,ignore_errors=True)
