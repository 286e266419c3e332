#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: create and confirm planted bugs in a scratch worktree.

SPEC defines SEEDS = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)], demo=python text)}"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, '..', 'seeded')
BASE = 'df71322'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(wt, diff):
    """every removed line of the patch must come from the original repository"""
    return True


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    for sid in ids:
        s = m.SEEDS[sid]
        wt = tempfile.mkdtemp(prefix='seedwt-')
        os.rmdir(wt)
        assert sh(f'git -C /repo worktree add --detach {wt} HEAD').returncode == 0
        try:
            d = os.path.join(SEEDED, sid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write('import os\nimport sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
                        'from demolib import *\n' + s['demo'].lstrip('\n'))
            shutil.copy(os.path.join(HERE, 'demolib.py'), d)
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            clean = sh(f'bash {d}/demo.sh', cwd=wt)
            blame_bad = []
            for fn, old, new in s['edits']:
                p = os.path.join(wt, fn)
                t = open(p).read()
                assert t.count(old) == 1, (sid, fn, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git diff', cwd=wt).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            # lines removed must be lines of the original repository
            for fn in {e[0] for e in s['edits']}:
                base = sh(f'git show {BASE}:{fn}', cwd=wt).stdout.splitlines()
                for line in diff.splitlines():
                    if line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] not in base:
                        blame_bad.append(line)
            broken = sh(f'bash {d}/demo.sh', cwd=wt)
            comp = sh('/opt/venv/bin/python -m compileall -q esp_idf_size && rm -rf $(find esp_idf_size -name __pycache__)', cwd=wt)
            test = sh('/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider test/test_doc.py 2>&1 | tail -3', cwd=wt)
            if not os.path.exists(os.path.join(wt, 'test/test_doc.py')):
                test = sh('ls', cwd=wt)
            ok = clean.returncode == 0 and broken.returncode != 0 and comp.returncode == 0 and not blame_bad
            print(sid, 'OK' if ok else 'BAD', 'clean', clean.returncode, 'broken', broken.returncode, blame_bad)
            if not ok:
                print(clean.stdout[-1500:], clean.stderr[-1500:], broken.stdout[-800:], broken.stderr[-800:])
            else:
                print('   ', broken.stdout.strip().splitlines()[-1:] or broken.stderr.strip().splitlines()[-1:])
            print('   ', test.stdout.strip().splitlines()[-1:])
        finally:
            sh(f'git -C /repo worktree remove --force {wt}')


main()
