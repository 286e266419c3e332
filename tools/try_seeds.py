#!/usr/bin/env python3
"""try_seeds.py [-t tier] [-a] [ID...]: run the check of each planted bug's property against a scratch worktree that
has the bug applied (MC_REPO).  -a runs every check against every bug (detection matrix)."""
import glob
import json
import os
import subprocess
import sys
import tempfile
import time

V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
args = sys.argv[1:]
tier, every = 'quick', False
if args[:1] == ['-t']:
    tier = args[1]
    args = args[2:]
if args[:1] == ['-a']:
    every = True
    args = args[1:]
claimed = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
for d in sorted(glob.glob(f'{V}/seeded/*')):
    sid = os.path.basename(d)
    if args and not any(sid.startswith(a) for a in args):
        continue
    meta = json.load(open(f'{d}/meta.json'))
    wt = tempfile.mkdtemp(prefix='trywt-')
    os.rmdir(wt)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
    try:
        subprocess.run(['git', '-C', wt, 'apply', f'{d}/patch.diff'], check=True)
        props = claimed if every else [meta['property']]
        for p in props:
            if p not in claimed:
                print(sid, p, 'not claimed')
                continue
            t = time.time()
            # evidence must not be overwritten by these runs
            r = subprocess.run(['./check.sh', p, tier], cwd=V, env=dict(os.environ, MC_REPO=wt, MC_EVIDENCE=wt + '/.ev'),
                               capture_output=True, text=True)
            hit = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
            if every and not hit:
                continue
            print(f'{sid:32} {p} rc={r.returncode} {"CAUGHT" if hit else "MISSED"} {time.time() - t:.0f}s', flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:], r.stderr[-2000:])
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
