#!/usr/bin/env python3
"""uncovered.py PREFIX: executable lines of the package that no worker executed (coverage files PREFIX.*, see MC_COVER)."""
import dis
import glob
import json
import os
import sys

hit = set()
for f in glob.glob(sys.argv[1] + '.*'):
    hit |= {tuple(x) for x in json.load(open(f))}


def lines(code):
    for _, _, ln in code.co_lines():
        if ln:
            yield ln
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            yield from lines(c)


for fn in sorted(glob.glob('/repo/esp_idf_size/*.py')):
    src = open(fn).read()
    b = os.path.basename(fn)
    code = compile(src, fn, 'exec')
    inner = set()
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            inner |= set(lines(c))
    miss = sorted(x for x in inner if (b, x) not in hit)
    text = src.split('\n')
    print(f'== {b}: {len(inner)} lines, {len(miss)} not executed')
    if b == 'elf.py' and '-v' not in sys.argv:
        print('  ', miss)
        continue
    for m in miss:
        print(f'   {m}: {text[m - 1]}')
